From 298263cd981e45626a6ee12540519499e4a01e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:38 +0000
Subject: [PATCH 01/82] fix: grow merged instruction counts when a function
 gets a larger global index

---
 src/plugins/InstructionCounter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/plugins/InstructionCounter.cpp b/src/plugins/InstructionCounter.cpp
index df6157b..97cfa7c 100644
--- a/src/plugins/InstructionCounter.cpp
+++ b/src/plugins/InstructionCounter.cpp
@@ -247,6 +247,10 @@ void InstructionCounter::workGroupComplete(const WorkGroup* workGroup)
       {
         opcode = COUNTED_CALL_BASE + (itr - m_functions.begin());
       }
+
+      // Function may have a larger index in the global list
+      if (opcode >= m_instructionCounts.size())
+        m_instructionCounts.resize(opcode + 1);
     }
 
     m_instructionCounts[opcode] += m_state.instCounts->at(i);
-- 
2.43.0


From 9e7f69cb83d112b983bc2a03beb84dd55e76890b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:36 +0000
Subject: [PATCH 02/82] fix: execute queued commands in order and check every
 wait-list event for failure

Commands were executed newest first through their predecessor's event, so a
failed wait-list event made a command terminate before its predecessors had
run (and they were then executed again or never), a flush leaked into the
queues of wait-list events, and an event that failed while being executed as
a dependency did not terminate its dependants.
---
 src/core/Queue.cpp      | 57 ++++++++++++++++++++++++-----------------
 src/core/Queue.h        |  6 +++--
 src/runtime/runtime.cpp |  2 +-
 3 files changed, 38 insertions(+), 27 deletions(-)

diff --git a/src/core/Queue.cpp b/src/core/Queue.cpp
index 1b603b6..5358422 100644
--- a/src/core/Queue.cpp
+++ b/src/core/Queue.cpp
@@ -171,17 +171,15 @@ bool Queue::isEmpty() const
   return m_queue.empty();
 }
 
-void Queue::execute(Command* command, bool flush)
+void Queue::execute(Command* command)
 {
-  // Find command in queue
-  auto it = std::find(m_queue.begin(), m_queue.end(), command);
-
-  // If there is a previous (older) command in the queue AND either the queue
-  // is not out of order OR needs to be flushed, then add event associated with
-  // previous (older) command as a dependency
-  if (it != m_queue.begin() && (!m_out_of_order || flush))
+  // Make sure all older commands that this command implicitly depends on have
+  // been executed
+  while (!m_out_of_order && m_queue.front() != command)
   {
-    command->waitList.push_back((*std::prev(it))->event);
+    Command* older = m_queue.front();
+    execute(older);
+    command->execBefore.push_back(older);
   }
 
   // Make sure all events in the wait list are complete before executing
@@ -191,27 +189,30 @@ void Queue::execute(Command* command, bool flush)
     Event* evt = command->waitList.front();
     command->waitList.pop_front();
 
-    if (evt->state < 0)
-    {
-      command->event->state = evt->state;
-      m_queue.erase(it);
-      return;
-    }
-    else if (evt->state != CL_COMPLETE)
+    if (evt->state > CL_COMPLETE)
     {
       if (evt->command)
       {
         // If it's not a user event, execute the associated command
-        evt->queue->execute(evt->command, flush);
-        command->execBefore.push_front(evt->command);
+        evt->queue->execute(evt->command);
+        command->execBefore.push_back(evt->command);
       }
       else
       {
         // If it's a user event then place it back at the of the wait list, and
         // check it later
         command->waitList.push_back(evt);
+        continue;
       }
     }
+
+    // If the event terminated unsuccessfully then so does this command
+    if (evt->state < 0)
+    {
+      command->event->state = (int)evt->state;
+      m_queue.erase(std::find(m_queue.begin(), m_queue.end(), command));
+      return;
+    }
   }
 
   // Dispatch command
@@ -266,7 +267,7 @@ void Queue::execute(Command* command, bool flush)
   command->event->state = CL_COMPLETE;
 
   // Remove command from its queue
-  m_queue.erase(it);
+  m_queue.erase(std::find(m_queue.begin(), m_queue.end(), command));
 }
 
 Command* Queue::finish()
@@ -276,10 +277,18 @@ Command* Queue::finish()
     return NULL;
   }
 
-  // Get most recent command in queue and execute it, triggering the execution
-  // of all previous commands even if it's an out-of-order queue
-  Command* cmd = m_queue.back();
-  execute(cmd, true);
+  // Execute commands oldest first until the most recent command in the queue
+  // has been executed, even if it's an out-of-order queue
+  Command* last = m_queue.back();
+  std::list<Command*> older;
+  while (m_queue.front() != last)
+  {
+    Command* cmd = m_queue.front();
+    execute(cmd);
+    older.push_back(cmd);
+  }
+  execute(last);
+  last->execBefore.splice(last->execBefore.begin(), older);
 
-  return cmd;
+  return last;
 }
diff --git a/src/core/Queue.h b/src/core/Queue.h
index 16eedb7..ed396fd 100644
--- a/src/core/Queue.h
+++ b/src/core/Queue.h
@@ -9,6 +9,8 @@
 #pragma once
 #include "common.h"
 
+#include <atomic>
+
 namespace oclgrind
 {
 class Context;
@@ -18,7 +20,7 @@ struct Command;
 
 struct Event
 {
-  int state;
+  std::atomic<int> state;
   double queueTime, startTime, endTime;
   Command* command;
   Queue* queue;
@@ -206,7 +208,7 @@ public:
   virtual ~Queue();
 
   Event* enqueue(Command* command);
-  void execute(Command* command, bool flush);
+  void execute(Command* command);
 
   void executeCopyBuffer(CopyCommand* cmd);
   void executeCopyBufferRect(CopyRectCommand* cmd);
diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index a645e71..a0e5f9e 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -3444,7 +3444,7 @@ CL_API_ENTRY cl_int CL_API_CALL clWaitForEvents(
       if (event_list[i]->queue)
       {
         oclgrind::Command* cmd = event_list[i]->event->command;
-        event_list[i]->event->queue->execute(cmd, false);
+        event_list[i]->event->queue->execute(cmd);
         releaseCommand(cmd);
 
         // If it's still not complete, update flag
-- 
2.43.0


From 77474babce87ff5204483471ef1d147c1d8feca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:47 +0000
Subject: [PATCH 03/82] fix: honour markers and barriers in out-of-order queues

---
 src/core/Queue.cpp      | 17 +++++++++++++----
 src/core/Queue.h        |  4 ++++
 src/runtime/runtime.cpp |  4 ++++
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/core/Queue.cpp b/src/core/Queue.cpp
index 5358422..06291d6 100644
--- a/src/core/Queue.cpp
+++ b/src/core/Queue.cpp
@@ -175,11 +175,20 @@ void Queue::execute(Command* command)
 {
   // Make sure all older commands that this command implicitly depends on have
   // been executed
-  while (!m_out_of_order && m_queue.front() != command)
+  auto itr = m_queue.begin();
+  while (*itr != command)
   {
-    Command* older = m_queue.front();
-    execute(older);
-    command->execBefore.push_back(older);
+    Command* older = *itr;
+    if (!m_out_of_order || older->blocksQueue || command->waitForQueue)
+    {
+      execute(older);
+      command->execBefore.push_back(older);
+      itr = m_queue.begin();
+    }
+    else
+    {
+      itr++;
+    }
   }
 
   // Make sure all events in the wait list are complete before executing
diff --git a/src/core/Queue.h b/src/core/Queue.h
index ed396fd..350c918 100644
--- a/src/core/Queue.h
+++ b/src/core/Queue.h
@@ -49,6 +49,10 @@ struct Command
   CommandType type;
   std::list<Event*> waitList;
   std::list<Command*> execBefore;
+  // Younger commands in the same queue must not execute before this command
+  bool blocksQueue = false;
+  // This command must not execute before older commands in the same queue
+  bool waitForQueue = false;
   Command()
   {
     type = EMPTY;
diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index a0e5f9e..e00342d 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -5297,6 +5297,7 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueMarkerWithWaitList(
 
   // Enqueue command
   oclgrind::Command* cmd = new oclgrind::Command();
+  cmd->waitForQueue = (num_events_in_wait_list == 0);
   asyncEnqueue(command_queue, CL_COMMAND_MARKER, cmd, num_events_in_wait_list,
                event_wait_list, event);
 
@@ -5323,6 +5324,8 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueBarrierWithWaitList(
 
   // Enqueue command
   oclgrind::Command* cmd = new oclgrind::Command();
+  cmd->blocksQueue = true;
+  cmd->waitForQueue = (num_events_in_wait_list == 0);
   asyncEnqueue(command_queue, CL_COMMAND_BARRIER, cmd, num_events_in_wait_list,
                event_wait_list, event);
 
@@ -5360,6 +5363,7 @@ clEnqueueWaitForEvents(cl_command_queue command_queue, cl_uint num_events,
 
   // Enqueue command
   oclgrind::Command* cmd = new oclgrind::Command();
+  cmd->blocksQueue = true;
   asyncEnqueue(command_queue, CL_COMMAND_BARRIER, cmd, num_events, event_list,
                NULL);
 
-- 
2.43.0


From 228f89da446ae82e7b8d0ffc05fda1a081a8a2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:00 +0000
Subject: [PATCH 04/82] fix: do not block in clFlush when a command waits for a
 user event

---
 src/core/Queue.cpp      | 63 ++++++++++++++++++++++++++++++++++++++++-
 src/core/Queue.h        |  5 ++++
 src/runtime/runtime.cpp |  6 ++--
 3 files changed, 71 insertions(+), 3 deletions(-)

diff --git a/src/core/Queue.cpp b/src/core/Queue.cpp
index 06291d6..bdc865f 100644
--- a/src/core/Queue.cpp
+++ b/src/core/Queue.cpp
@@ -171,6 +171,44 @@ bool Queue::isEmpty() const
   return m_queue.empty();
 }
 
+bool Queue::isDependency(const Command* command, const Command* older) const
+{
+  return !m_out_of_order || older->blocksQueue || command->waitForQueue;
+}
+
+bool Queue::isReady(Command* command, std::set<Command*>& checked) const
+{
+  if (!checked.insert(command).second)
+  {
+    return true;
+  }
+
+  // Check older commands in the queue
+  for (Command* older : m_queue)
+  {
+    if (older == command)
+    {
+      break;
+    }
+    if (isDependency(command, older) && !isReady(older, checked))
+    {
+      return false;
+    }
+  }
+
+  // Check events in the wait list
+  for (Event* evt : command->waitList)
+  {
+    if (evt->state > CL_COMPLETE &&
+        (!evt->command || !evt->queue->isReady(evt->command, checked)))
+    {
+      return false;
+    }
+  }
+
+  return true;
+}
+
 void Queue::execute(Command* command)
 {
   // Make sure all older commands that this command implicitly depends on have
@@ -179,7 +217,7 @@ void Queue::execute(Command* command)
   while (*itr != command)
   {
     Command* older = *itr;
-    if (!m_out_of_order || older->blocksQueue || command->waitForQueue)
+    if (isDependency(command, older))
     {
       execute(older);
       command->execBefore.push_back(older);
@@ -301,3 +339,26 @@ Command* Queue::finish()
 
   return last;
 }
+
+std::list<Command*> Queue::flush()
+{
+  std::list<Command*> executed;
+
+  // Execute every command that is not waiting for a user event
+  for (auto itr = m_queue.begin(); itr != m_queue.end();)
+  {
+    Command* command = *itr++;
+    std::set<Command*> checked;
+    if (isReady(command, checked))
+    {
+      execute(command);
+      executed.push_back(command);
+    }
+    else if (!m_out_of_order)
+    {
+      break;
+    }
+  }
+
+  return executed;
+}
diff --git a/src/core/Queue.h b/src/core/Queue.h
index 350c918..8398fc8 100644
--- a/src/core/Queue.h
+++ b/src/core/Queue.h
@@ -10,6 +10,7 @@
 #include "common.h"
 
 #include <atomic>
+#include <set>
 
 namespace oclgrind
 {
@@ -229,8 +230,12 @@ public:
 
   bool isEmpty() const;
   Command* finish();
+  std::list<Command*> flush();
 
 private:
+  bool isDependency(const Command* command, const Command* older) const;
+  bool isReady(Command* command, std::set<Command*>& checked) const;
+
   const Context* m_context;
   const bool m_out_of_order;
   std::list<Command*> m_queue;
diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index e00342d..e274d10 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -3741,8 +3741,10 @@ CL_API_ENTRY cl_int CL_API_CALL clFlush(cl_command_queue command_queue)
     ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
   }
 
-  // TODO: Implement properly?
-  clFinish(command_queue);
+  for (oclgrind::Command* cmd : command_queue->queue->flush())
+  {
+    releaseCommand(cmd);
+  }
 
   return CL_SUCCESS;
 }
-- 
2.43.0


From 7f022b4d5211af479a3e674cdcb76d60737b37b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:46 +0000
Subject: [PATCH 05/82] fix: make blocking calls wait for their own command and
 report its failure

---
 src/core/Queue.cpp      |  6 +++--
 src/core/Queue.h        |  3 ++-
 src/runtime/runtime.cpp | 50 ++++++++++++++++++++++++++++++++++++-----
 3 files changed, 50 insertions(+), 9 deletions(-)

diff --git a/src/core/Queue.cpp b/src/core/Queue.cpp
index bdc865f..554041b 100644
--- a/src/core/Queue.cpp
+++ b/src/core/Queue.cpp
@@ -209,7 +209,7 @@ bool Queue::isReady(Command* command, std::set<Command*>& checked) const
   return true;
 }
 
-void Queue::execute(Command* command)
+bool Queue::execute(Command* command)
 {
   // Make sure all older commands that this command implicitly depends on have
   // been executed
@@ -258,7 +258,7 @@ void Queue::execute(Command* command)
     {
       command->event->state = (int)evt->state;
       m_queue.erase(std::find(m_queue.begin(), m_queue.end(), command));
-      return;
+      return false;
     }
   }
 
@@ -315,6 +315,8 @@ void Queue::execute(Command* command)
 
   // Remove command from its queue
   m_queue.erase(std::find(m_queue.begin(), m_queue.end(), command));
+
+  return true;
 }
 
 Command* Queue::finish()
diff --git a/src/core/Queue.h b/src/core/Queue.h
index 8398fc8..958224b 100644
--- a/src/core/Queue.h
+++ b/src/core/Queue.h
@@ -213,7 +213,8 @@ public:
   virtual ~Queue();
 
   Event* enqueue(Command* command);
-  void execute(Command* command);
+  // Returns false if the command was terminated by a failed event
+  bool execute(Command* command);
 
   void executeCopyBuffer(CopyCommand* cmd);
   void executeCopyBufferRect(CopyRectCommand* cmd);
diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index e274d10..ed3a50d 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -3767,6 +3767,28 @@ CL_API_ENTRY cl_int CL_API_CALL clFinish(cl_command_queue command_queue)
   return CL_SUCCESS;
 }
 
+namespace
+{
+// Utility to execute a command enqueued by a blocking API call
+cl_int executeBlocking(cl_command_queue command_queue, oclgrind::Command* cmd)
+{
+  bool success = command_queue->queue->execute(cmd);
+  releaseCommand(cmd);
+
+  // Blocking calls perform an implicit flush
+  clFlush(command_queue);
+
+  if (!success)
+  {
+    ReturnErrorInfo(command_queue->context,
+                    CL_EXEC_STATUS_ERROR_FOR_EVENTS_IN_WAIT_LIST,
+                    "An event in the wait list terminated with an error");
+  }
+
+  return CL_SUCCESS;
+}
+} // namespace
+
 CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadBuffer(
   cl_command_queue command_queue, cl_mem buffer, cl_bool blocking_read,
   size_t offset, size_t cb, void* ptr, cl_uint num_events_in_wait_list,
@@ -3818,7 +3840,7 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadBuffer(
 
   if (blocking_read)
   {
-    return clFinish(command_queue);
+    return executeBlocking(command_queue, cmd);
   }
 
   return CL_SUCCESS;
@@ -3910,7 +3932,7 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadBufferRect(
 
   if (blocking_read)
   {
-    return clFinish(command_queue);
+    return executeBlocking(command_queue, cmd);
   }
 
   return CL_SUCCESS;
@@ -3967,7 +3989,7 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteBuffer(
 
   if (blocking_write)
   {
-    return clFinish(command_queue);
+    return executeBlocking(command_queue, cmd);
   }
 
   return CL_SUCCESS;
@@ -4059,7 +4081,7 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteBufferRect(
 
   if (blocking_write)
   {
-    return clFinish(command_queue);
+    return executeBlocking(command_queue, cmd);
   }
 
   return CL_SUCCESS;
@@ -4834,7 +4856,15 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapBuffer(
   SetError(command_queue->context, CL_SUCCESS);
   if (blocking_map)
   {
-    SetError(command_queue->context, clFinish(command_queue));
+    cl_int err = executeBlocking(command_queue, cmd);
+    if (err != CL_SUCCESS)
+    {
+      if (errcode_ret)
+      {
+        *errcode_ret = err;
+      }
+      return NULL;
+    }
   }
 
   return ptr;
@@ -4967,7 +4997,15 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapImage(
   SetError(command_queue->context, CL_SUCCESS);
   if (blocking_map)
   {
-    SetError(command_queue->context, clFinish(command_queue));
+    cl_int err = executeBlocking(command_queue, cmd);
+    if (err != CL_SUCCESS)
+    {
+      if (errcode_ret)
+      {
+        *errcode_ret = err;
+      }
+      return NULL;
+    }
   }
 
   return ptr;
-- 
2.43.0


From 889a840b450a23532a5437d13be1fef747400a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:09 +0000
Subject: [PATCH 06/82] fix: call event callbacks once their state is reached,
 with the registered status

---
 src/runtime/async_queue.cpp | 28 +++++++++++++++++++++-------
 src/runtime/async_queue.h   |  1 +
 src/runtime/icd.h           |  9 +++++++--
 src/runtime/runtime.cpp     | 13 ++++++-------
 4 files changed, 35 insertions(+), 16 deletions(-)

diff --git a/src/runtime/async_queue.cpp b/src/runtime/async_queue.cpp
index ada38bf..b4386c0 100644
--- a/src/runtime/async_queue.cpp
+++ b/src/runtime/async_queue.cpp
@@ -83,6 +83,26 @@ void asyncQueueRetain(Command* cmd, cl_kernel kernel)
   }
 }
 
+void performEventCallbacks(cl_event event)
+{
+  // Only perform callbacks for states that have been reached
+  int state = event->event->state;
+  list<_cl_event::Callback> reached;
+  for (auto itr = event->callbacks.begin(); itr != event->callbacks.end();)
+  {
+    auto callback = itr++;
+    if (callback->type >= state)
+    {
+      reached.splice(reached.end(), event->callbacks, callback);
+    }
+  }
+
+  for (const auto& callback : reached)
+  {
+    callback.func(event, state < 0 ? state : callback.type, callback.data);
+  }
+}
+
 void asyncQueueRelease(Command* cmd)
 {
   // Release memory objects
@@ -111,13 +131,7 @@ void asyncQueueRelease(Command* cmd)
   eventMap.erase(cmd);
 
   // Perform callbacks
-  list<pair<void(CL_CALLBACK*)(cl_event, cl_int, void*), void*>>::iterator
-    callItr;
-  for (callItr = event->callbacks.begin(); callItr != event->callbacks.end();
-       callItr++)
-  {
-    callItr->first(event, event->event->state, callItr->second);
-  }
+  performEventCallbacks(event);
 
   // Release events
   list<cl_event>::iterator waitItr;
diff --git a/src/runtime/async_queue.h b/src/runtime/async_queue.h
index 0ad3e8a..acc8ea9 100644
--- a/src/runtime/async_queue.h
+++ b/src/runtime/async_queue.h
@@ -16,3 +16,4 @@ extern void asyncEnqueue(cl_command_queue queue, cl_command_type type,
 extern void asyncQueueRetain(oclgrind::Command* cmd, cl_mem mem);
 extern void asyncQueueRetain(oclgrind::Command* cmd, cl_kernel);
 extern void asyncQueueRelease(oclgrind::Command* cmd);
+extern void performEventCallbacks(cl_event event);
diff --git a/src/runtime/icd.h b/src/runtime/icd.h
index b295360..b9c8ee3 100644
--- a/src/runtime/icd.h
+++ b/src/runtime/icd.h
@@ -233,8 +233,13 @@ struct _cl_event
   cl_command_queue queue;
   cl_command_type type;
   oclgrind::Event* event;
-  std::list<std::pair<void(CL_CALLBACK*)(cl_event, cl_int, void*), void*>>
-    callbacks;
+  struct Callback
+  {
+    void(CL_CALLBACK* func)(cl_event, cl_int, void*);
+    cl_int type;
+    void* data;
+  };
+  std::list<Callback> callbacks;
   unsigned int refCount;
 };
 
diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index ed3a50d..2384caa 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -3633,12 +3633,7 @@ CL_API_ENTRY cl_int CL_API_CALL clSetUserEventStatus(
 
   event->event->state = execution_status;
 
-  // Perform callbacks
-  list<pair<void(CL_CALLBACK*)(cl_event, cl_int, void*), void*>>::iterator itr;
-  for (itr = event->callbacks.begin(); itr != event->callbacks.end(); itr++)
-  {
-    itr->first(event, execution_status, itr->second);
-  }
+  performEventCallbacks(event);
 
   return CL_SUCCESS;
 }
@@ -3667,7 +3662,11 @@ clSetEventCallback(cl_event event, cl_int command_exec_callback_type,
                    command_exec_callback_type);
   }
 
-  event->callbacks.push_back(make_pair(pfn_notify, user_data));
+  event->callbacks.push_back(
+    {pfn_notify, command_exec_callback_type, user_data});
+
+  // The event may already have reached the requested state
+  performEventCallbacks(event);
 
   return CL_SUCCESS;
 }
-- 
2.43.0


From c71ba3e5ccc521a58e2abb1b3a5c4fa26b3fa9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:25 +0000
Subject: [PATCH 07/82] fix: take profiling timestamps from a monotonic clock

---
 src/core/common.cpp | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/core/common.cpp b/src/core/common.cpp
index 8eba1e3..ee899e9 100644
--- a/src/core/common.cpp
+++ b/src/core/common.cpp
@@ -9,11 +9,7 @@
 #include "common.h"
 #include "config.h"
 
-#if defined(_WIN32) && !defined(__MINGW32__)
-#include <time.h>
-#else
-#include <sys/time.h>
-#endif
+#include <chrono>
 
 #include "llvm/IR/Instructions.h"
 #include "llvm/IR/Metadata.h"
@@ -748,13 +744,10 @@ bool isVector3(const llvm::Value* value)
 
 double now()
 {
-#if defined(_WIN32) && !defined(__MINGW32__)
-  return time(NULL) * 1e9;
-#else
-  struct timeval tv;
-  gettimeofday(&tv, NULL);
-  return tv.tv_usec * 1e3 + tv.tv_sec * 1e9;
-#endif
+  // Use a clock that never goes backwards
+  return std::chrono::duration_cast<std::chrono::nanoseconds>(
+           std::chrono::steady_clock::now().time_since_epoch())
+    .count();
 }
 
 void printTypedData(const llvm::Type* type, const unsigned char* data)
-- 
2.43.0


From e9c073aa6f26a8902ed4d14e09073bfe20dc3c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 08/82] fix: use the slice pitch for host layers of 1D image
 arrays

---
 src/runtime/runtime.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 2384caa..b43c722 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -4539,6 +4539,13 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadImage(
   {
     row_pitch = pixel_region[0];
   }
+  if (img->desc.image_type == CL_MEM_OBJECT_IMAGE1D_ARRAY &&
+      slice_pitch != 0)
+  {
+    // The second dimension of the region selects array layers
+    row_pitch = slice_pitch;
+    slice_pitch = 0;
+  }
   if (slice_pitch == 0)
   {
     slice_pitch = pixel_region[1] * row_pitch;
@@ -4593,6 +4600,13 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteImage(
   {
     input_row_pitch = pixel_region[0];
   }
+  if (img->desc.image_type == CL_MEM_OBJECT_IMAGE1D_ARRAY &&
+      input_slice_pitch != 0)
+  {
+    // The second dimension of the region selects array layers
+    input_row_pitch = input_slice_pitch;
+    input_slice_pitch = 0;
+  }
   if (input_slice_pitch == 0)
   {
     input_slice_pitch = pixel_region[1] * input_row_pitch;
-- 
2.43.0


From 19cfaedfcca510b6570fa0a22e787bc9236f77f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:32 +0000
Subject: [PATCH 09/82] fix: check mapped regions at their offset and without
 touching neighbours

---
 src/plugins/MemCheck.cpp | 6 +++---
 src/plugins/MemCheck.h   | 1 -
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/plugins/MemCheck.cpp b/src/plugins/MemCheck.cpp
index 7567f26..4863c80 100644
--- a/src/plugins/MemCheck.cpp
+++ b/src/plugins/MemCheck.cpp
@@ -79,7 +79,7 @@ void MemCheck::memoryLoad(const Memory* memory, const WorkGroup* workGroup,
 void MemCheck::memoryMap(const Memory* memory, size_t address, size_t offset,
                          size_t size, cl_map_flags flags)
 {
-  MapRegion map = {address, offset, size, memory->getPointer(address + offset),
+  MapRegion map = {address + offset, size, memory->getPointer(address + offset),
                    (flags == CL_MAP_READ ? MapRegion::READ : MapRegion::WRITE)};
   m_mapRegions.push_back(map);
 }
@@ -177,7 +177,7 @@ void MemCheck::checkLoad(const Memory* memory, size_t address,
   {
     if (region->type == MapRegion::WRITE &&
         address < region->address + region->size &&
-        address + size >= region->address)
+        address + size > region->address)
     {
       m_context->logError("Invalid read from buffer mapped for writing");
     }
@@ -207,7 +207,7 @@ void MemCheck::checkStore(const Memory* memory, size_t address,
        region++)
   {
     if (address < region->address + region->size &&
-        address + size >= region->address)
+        address + size > region->address)
     {
       m_context->logError("Invalid write to mapped buffer");
     }
diff --git a/src/plugins/MemCheck.h b/src/plugins/MemCheck.h
index c5e80cc..8e2a271 100644
--- a/src/plugins/MemCheck.h
+++ b/src/plugins/MemCheck.h
@@ -55,7 +55,6 @@ private:
   struct MapRegion
   {
     size_t address;
-    size_t offset;
     size_t size;
     const void* ptr;
     enum
-- 
2.43.0


From 048a3fdabdabe237ffb049552162841c34c3cfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:27 +0000
Subject: [PATCH 10/82] fix: give every work-group of a multi-dimensional range
 its own index

---
 src/core/WorkGroup.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/core/WorkGroup.cpp b/src/core/WorkGroup.cpp
index da03897..5786b52 100644
--- a/src/core/WorkGroup.cpp
+++ b/src/core/WorkGroup.cpp
@@ -34,10 +34,9 @@ WorkGroup::WorkGroup(const KernelInvocation* kernelInvocation, Size3 wgid,
   m_groupID = wgid;
   m_groupSize = size;
 
+  Size3 numGroups = kernelInvocation->getNumGroups();
   m_groupIndex =
-    (m_groupID.x +
-     (m_groupID.y + m_groupID.z * (kernelInvocation->getNumGroups().y) *
-                      kernelInvocation->getNumGroups().x));
+    (m_groupID.x + (m_groupID.y + m_groupID.z * numGroups.y) * numGroups.x);
 
   // Allocate local memory
   m_localMemory =
-- 
2.43.0


From 99d93ba48bda662b69482e22551699cbf3fc3904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:18 +0000
Subject: [PATCH 11/82] fix: report the right work-items and groups in data
 races

---
 src/plugins/RaceDetector.cpp | 37 ++++++++++++++++++++++++------------
 src/plugins/RaceDetector.h   |  2 ++
 2 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/plugins/RaceDetector.cpp b/src/plugins/RaceDetector.cpp
index 02598f6..0b0077a 100644
--- a/src/plugins/RaceDetector.cpp
+++ b/src/plugins/RaceDetector.cpp
@@ -234,12 +234,29 @@ bool RaceDetector::check(const MemoryAccess& a, const MemoryAccess& b) const
   return false;
 }
 
+void RaceDetector::getAccessIDs(const MemoryAccess& access, Size3& global,
+                                Size3& local, Size3& group) const
+{
+  // Entity is the global index of the work-item, which includes the offset
+  Size3 offset = m_kernelInvocation->getGlobalOffset();
+  Size3 gsize = m_kernelInvocation->getGlobalSize();
+  Size3 wgsize = m_kernelInvocation->getLocalSize();
+  size_t base = offset.x + (offset.y + offset.z * gsize.y) * gsize.x;
+
+  Size3 id(access.getEntity() - base, gsize);
+  global = Size3(id.x + offset.x, id.y + offset.y, id.z + offset.z);
+  local = Size3(id.x % wgsize.x, id.y % wgsize.y, id.z % wgsize.z);
+  group = Size3(id.x / wgsize.x, id.y / wgsize.y, id.z / wgsize.z);
+}
+
 size_t RaceDetector::getAccessWorkGroup(const MemoryAccess& access) const
 {
   if (access.isWorkItem())
   {
-    const Size3& wgsize = m_kernelInvocation->getLocalSize();
-    return access.getEntity() / (wgsize.x * wgsize.y * wgsize.z);
+    Size3 global, local, group;
+    getAccessIDs(access, global, local, group);
+    Size3 numGroups = m_kernelInvocation->getNumGroups();
+    return group.x + (group.y + group.z * numGroups.y) * numGroups.x;
   }
   else
     return access.getEntity();
@@ -307,16 +324,14 @@ void RaceDetector::logRace(const Race& race) const
 
   if (race.a.isWorkItem())
   {
-    Size3 wgsize = m_kernelInvocation->getLocalSize();
-    Size3 global(race.a.getEntity(), m_kernelInvocation->getGlobalSize());
-    Size3 local(global.x % wgsize.x, global.y % wgsize.y, global.z % wgsize.z);
-    Size3 group(global.x / wgsize.x, global.y / wgsize.y, global.z / wgsize.z);
+    Size3 global, local, group;
+    getAccessIDs(race.a, global, local, group);
     msg << "Global" << global << " Local" << local << " Group" << group;
   }
   else
   {
     msg << "Group"
-        << Size3(race.a.getEntity(), m_kernelInvocation->getLocalSize());
+        << Size3(race.a.getEntity(), m_kernelInvocation->getNumGroups());
   }
 
   msg << endl << race.a.getInstruction() << endl << endl << "Second entity: ";
@@ -324,16 +339,14 @@ void RaceDetector::logRace(const Race& race) const
   // Show details of other entity involved in race
   if (race.b.isWorkItem())
   {
-    Size3 wgsize = m_kernelInvocation->getLocalSize();
-    Size3 global(race.b.getEntity(), m_kernelInvocation->getGlobalSize());
-    Size3 local(global.x % wgsize.x, global.y % wgsize.y, global.z % wgsize.z);
-    Size3 group(global.x / wgsize.x, global.y / wgsize.y, global.z / wgsize.z);
+    Size3 global, local, group;
+    getAccessIDs(race.b, global, local, group);
     msg << "Global" << global << " Local" << local << " Group" << group;
   }
   else
   {
     msg << "Group"
-        << Size3(race.b.getEntity(), m_kernelInvocation->getLocalSize());
+        << Size3(race.b.getEntity(), m_kernelInvocation->getNumGroups());
   }
   msg << endl << race.b.getInstruction() << endl;
   msg.send();
diff --git a/src/plugins/RaceDetector.h b/src/plugins/RaceDetector.h
index e352c6c..05d6fe1 100644
--- a/src/plugins/RaceDetector.h
+++ b/src/plugins/RaceDetector.h
@@ -122,6 +122,8 @@ private:
   std::mutex kernelRacesMutex;
   RaceList kernelRaces;
 
+  void getAccessIDs(const MemoryAccess& access, Size3& global, Size3& local,
+                    Size3& group) const;
   size_t getAccessWorkGroup(const MemoryAccess& access) const;
 
   bool check(const MemoryAccess& a, const MemoryAccess& b) const;
-- 
2.43.0


From d3de67505bd4b057fd7d5a50bcb44310de3f8264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:11 +0000
Subject: [PATCH 12/82] fix: compare every value an entity stores when looking
 for write-write races

---
 src/plugins/RaceDetector.cpp | 33 ++++++++++++++++++++++++++++++++-
 src/plugins/RaceDetector.h   |  3 +++
 2 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/src/plugins/RaceDetector.cpp b/src/plugins/RaceDetector.cpp
index 0b0077a..cd19d8e 100644
--- a/src/plugins/RaceDetector.cpp
+++ b/src/plugins/RaceDetector.cpp
@@ -229,6 +229,14 @@ bool RaceDetector::check(const MemoryAccess& a, const MemoryAccess& b) const
     // Write-write race if not uniform
     if (!m_allowUniformWrites || (a.getStoreData() != b.getStoreData()))
       return true;
+
+    // The recorded value does not represent all of the values that were stored
+    if (a.isMultiStore() || b.isMultiStore())
+      return true;
+
+    // Atomic and non-atomic stores always conflict
+    if (a.isAtomic() || b.isAtomic())
+      return true;
   }
 
   return false;
@@ -272,8 +280,20 @@ void RaceDetector::insert(AccessRecord& record,
   }
   else if (access.isStore())
   {
+    // Only one store is kept, so remember if there are others that differ
+    bool multi = false;
+    if (record.store.isSet())
+    {
+      bool atomic = record.store.isAtomic() && access.isAtomic();
+      multi = record.store.isMultiStore() || access.isMultiStore() ||
+              (record.store.isAtomic() != access.isAtomic()) ||
+              (!atomic && record.store.getStoreData() != access.getStoreData());
+    }
+
     if (!record.store.isSet() || record.store.isAtomic())
       record.store = access;
+    if (multi)
+      record.store.setMultiStore();
   }
 }
 
@@ -490,6 +510,11 @@ bool RaceDetector::MemoryAccess::isLoad() const
   return !isStore();
 }
 
+bool RaceDetector::MemoryAccess::isMultiStore() const
+{
+  return this->info & (1 << MULTI_BIT);
+}
+
 bool RaceDetector::MemoryAccess::isStore() const
 {
   return this->info & (1 << STORE_BIT);
@@ -520,6 +545,11 @@ uint8_t RaceDetector::MemoryAccess::getStoreData() const
   return this->storeData;
 }
 
+void RaceDetector::MemoryAccess::setMultiStore()
+{
+  this->info |= 1 << MULTI_BIT;
+}
+
 void RaceDetector::MemoryAccess::setStoreData(uint8_t data)
 {
   this->storeData = data;
@@ -529,5 +559,6 @@ bool RaceDetector::MemoryAccess::operator==(
   const RaceDetector::MemoryAccess& other) const
 {
   return this->entity == other.entity &&
-         this->instruction == other.instruction && this->info == other.info;
+         this->instruction == other.instruction &&
+         (this->info | (1 << MULTI_BIT)) == (other.info | (1 << MULTI_BIT));
 }
diff --git a/src/plugins/RaceDetector.h b/src/plugins/RaceDetector.h
index 05d6fe1..c4ffab1 100644
--- a/src/plugins/RaceDetector.h
+++ b/src/plugins/RaceDetector.h
@@ -56,6 +56,7 @@ private:
     static const unsigned STORE_BIT = 1;
     static const unsigned ATOMIC_BIT = 2;
     static const unsigned WG_BIT = 3;
+    static const unsigned MULTI_BIT = 4;
     uint8_t storeData;
 
   public:
@@ -65,6 +66,7 @@ private:
 
     bool isAtomic() const;
     bool isLoad() const;
+    bool isMultiStore() const;
     bool isStore() const;
     bool isWorkGroup() const;
     bool isWorkItem() const;
@@ -73,6 +75,7 @@ private:
     const llvm::Instruction* getInstruction() const;
 
     uint8_t getStoreData() const;
+    void setMultiStore();
     void setStoreData(uint8_t);
 
     MemoryAccess();
-- 
2.43.0


From df95feee7d9624f61ca368baf5abea23a7f7ff1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:59 +0000
Subject: [PATCH 13/82] fix: size of the property list given to clCreateContext

A list holding only the terminator was read past its end, and a property
with a value of zero ended the list early.  Properties are name / value
pairs.
---
 src/runtime/runtime.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index b43c722..497664e 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -1043,10 +1043,10 @@ CL_API_ENTRY cl_context CL_API_CALL clCreateContext(
 
   if (properties)
   {
-    int num = 1;
+    int num = 0;
     while (properties[num])
     {
-      num++;
+      num += 2;
     }
     size_t sz = (num + 1) * sizeof(cl_context_properties);
     context->szProperties = sz;
@@ -1093,7 +1093,7 @@ CL_API_ENTRY cl_context CL_API_CALL clCreateContextFromType(
     int num = 0;
     while (properties[num])
     {
-      num++;
+      num += 2;
     }
     size_t sz = (num + 1) * sizeof(cl_context_properties);
     context->szProperties = sz;
-- 
2.43.0


From 60d038ee683d38659016b9953698a2004fe5a04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:20 +0000
Subject: [PATCH 14/82] fix: reject unsupported buffer and image properties

The error code was overwritten by the success of the creation.
---
 src/runtime/runtime.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 497664e..182fa5d 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -1476,6 +1476,7 @@ CL_API_ENTRY cl_mem CL_API_CALL clCreateBufferWithProperties(
   if (properties && properties[0] != 0)
   {
     SetErrorInfo(context, CL_INVALID_PROPERTY, "Unsupported property");
+    return NULL;
   }
 
   cl_mem buffer = createBuffer(context, flags, size, host_ptr, errcode_ret);
@@ -1794,6 +1795,7 @@ CL_API_ENTRY cl_mem CL_API_CALL clCreateImageWithProperties(
   if (properties && properties[0] != 0)
   {
     SetErrorInfo(context, CL_INVALID_PROPERTY, "Unsupported property");
+    return NULL;
   }
 
   cl_mem image = createImage(context, flags, image_format, image_desc, host_ptr,
-- 
2.43.0


From 3cf909d66df7122b193d9d929ac7016bc443bb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:20 +0000
Subject: [PATCH 15/82] fix: reference count of samplers created with
 properties

It was never initialised.
---
 src/runtime/runtime.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 182fa5d..8c8b72e 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -5970,6 +5970,7 @@ CL_API_ENTRY cl_sampler CL_API_CALL clCreateSamplerWithProperties(
   sampler->addressMode = addressing_mode;
   sampler->filterMode = filter_mode;
   sampler->sampler = bitfield;
+  sampler->refCount = 1;
   if (sampler_properties)
   {
     sampler->properties.assign(sampler_properties,
-- 
2.43.0


From 74b7c1aeff4e749482e47901df99d40c6e9de873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:20 +0000
Subject: [PATCH 16/82] fix: clCreateKernel with a NULL program

---
 src/runtime/runtime.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 8c8b72e..94ffc09 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -2954,7 +2954,7 @@ clCreateKernel(cl_program program, const char* kernel_name,
   REGISTER_API;
 
   // Check parameters
-  if (program->dispatch != m_dispatchTable)
+  if (!program || program->dispatch != m_dispatchTable)
   {
     SetError(NULL, CL_INVALID_PROGRAM);
     return NULL;
-- 
2.43.0


From d53afe80e29327b5420c2dc8e3b3980bf2663db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:20 +0000
Subject: [PATCH 17/82] fix: leaks in the error paths of clSetKernelArg

---
 src/runtime/runtime.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 94ffc09..9b75a60 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -3122,11 +3122,12 @@ clSetKernelArg(cl_kernel kernel, cl_uint arg_index, size_t arg_size,
     {
       if (!arg_value)
       {
+        delete[] value.data;
         ReturnError(kernel->program->context, CL_INVALID_SAMPLER);
-        return CL_INVALID_SAMPLER;
       }
       if (arg_size != sizeof(cl_sampler))
       {
+        delete[] value.data;
         ReturnError(kernel->program->context, CL_INVALID_ARG_SIZE);
       }
       memcpy(value.data, &(*(cl_sampler*)arg_value)->sampler, 4);
@@ -3171,6 +3172,7 @@ clSetKernelArg(cl_kernel kernel, cl_uint arg_index, size_t arg_size,
     }
     break;
   default:
+    delete[] value.data;
     ReturnErrorInfo(kernel->program->context, CL_INVALID_ARG_VALUE,
                     "Unsupported address space");
   }
-- 
2.43.0


From 8ce90ea068be30fe3f2dc9659c9cf5fe959bb479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:20 +0000
Subject: [PATCH 18/82] fix: clEnqueueMapImage with an invalid region

The error was reported, and then overwritten as the region was mapped.
---
 src/runtime/runtime.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 9b75a60..c95e35f 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -4930,6 +4930,7 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapImage(
   {
     SetErrorInfo(command_queue->context, CL_INVALID_VALUE,
                  "Values in region cannot be 0");
+    return NULL;
   }
   if (auto err = checkEventWaitList(command_queue->context,
                                     num_events_in_wait_list, event_wait_list);
@@ -4964,6 +4965,7 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapImage(
                  "origin[0] + region[0] > width ("
                    << origin[0] << " + " << region[0] << " > " << width
                    << " )");
+    return NULL;
   }
   if (origin[1] + region[1] > height)
   {
@@ -4971,6 +4973,7 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapImage(
                  "origin[1] + region[1] > height ("
                    << origin[1] << " + " << region[1] << " > " << height
                    << " )");
+    return NULL;
   }
   if (origin[2] + region[2] > depth)
   {
@@ -4978,6 +4981,7 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapImage(
                  "origin[2] + region[2] > depth ("
                    << origin[2] << " + " << region[2] << " > " << depth
                    << " )");
+    return NULL;
   }
 
   // Compute byte offset and size
-- 
2.43.0


From deca65419862297bcca710a4eabe411116ea3704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:55 +0000
Subject: [PATCH 19/82] fix: range checks with offsets that overflow

An offset close to the maximum wrapped around, so that a region outside the
buffer or image was accepted.
---
 src/runtime/runtime.cpp | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index c95e35f..34f342c 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -1519,7 +1519,8 @@ CL_API_ENTRY cl_mem CL_API_CALL clCreateSubBuffer(
   }
 
   _cl_buffer_region region = *(_cl_buffer_region*)buffer_create_info;
-  if (region.origin + region.size > buffer->size)
+  if (region.origin > buffer->size ||
+      region.size > buffer->size - region.origin)
   {
     SetErrorInfo(buffer->context, CL_INVALID_VALUE,
                  "Region doesn't fit inside parent buffer");
@@ -3812,7 +3813,7 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadBuffer(
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, ptr);
   }
-  if (offset + cb > buffer->size)
+  if (offset > buffer->size || cb > buffer->size - offset)
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "offset + cb (" << offset << " + " << cb
@@ -3961,7 +3962,7 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteBuffer(
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, ptr);
   }
-  if (offset + cb > buffer->size)
+  if (offset > buffer->size || cb > buffer->size - offset)
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "offset + cb (" << offset << " + " << cb
@@ -4111,14 +4112,14 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyBuffer(
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, dst_buffer);
   }
-  if (dst_offset + cb > dst_buffer->size)
+  if (dst_offset > dst_buffer->size || cb > dst_buffer->size - dst_offset)
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "dst_offset + cb (" << dst_offset << " + " << cb
                                         << ") exceeds buffer size ("
                                         << dst_buffer->size << " bytes)");
   }
-  if (src_offset + cb > src_buffer->size)
+  if (src_offset > src_buffer->size || cb > src_buffer->size - src_offset)
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "src_offset + cb (" << src_offset << " + " << cb
@@ -4280,7 +4281,7 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueFillBuffer(
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, buffer);
   }
-  if (offset + cb > buffer->size)
+  if (offset > buffer->size || cb > buffer->size - offset)
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "offset + cb (" << offset << " + " << cb
@@ -4376,21 +4377,21 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueFillImage(
     depth = arraySize;
 
   // Ensure region is within image bounds
-  if (origin[0] + region[0] > width)
+  if (origin[0] > width || region[0] > width - origin[0])
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "origin[0] + region[0] > width ("
                       << origin[0] << " + " << region[0] << " > " << width
                       << " )");
   }
-  if (origin[1] + region[1] > height)
+  if (origin[1] > height || region[1] > height - origin[1])
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "origin[1] + region[1] > height ("
                       << origin[1] << " + " << region[1] << " > " << height
                       << " )");
   }
-  if (origin[2] + region[2] > depth)
+  if (origin[2] > depth || region[2] > depth - origin[2])
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "origin[2] + region[2] > depth ("
@@ -4842,7 +4843,7 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapBuffer(
   }
 
   // Check map region
-  if (offset + cb > buffer->size)
+  if (offset > buffer->size || cb > buffer->size - offset)
   {
     SetErrorInfo(command_queue->context, CL_INVALID_VALUE,
                  "offset + cb (" << offset << " + " << cb
@@ -4959,7 +4960,7 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapImage(
     depth = arraySize;
 
   // Ensure region is within image bounds
-  if (origin[0] + region[0] > width)
+  if (origin[0] > width || region[0] > width - origin[0])
   {
     SetErrorInfo(command_queue->context, CL_INVALID_VALUE,
                  "origin[0] + region[0] > width ("
@@ -4967,7 +4968,7 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapImage(
                    << " )");
     return NULL;
   }
-  if (origin[1] + region[1] > height)
+  if (origin[1] > height || region[1] > height - origin[1])
   {
     SetErrorInfo(command_queue->context, CL_INVALID_VALUE,
                  "origin[1] + region[1] > height ("
@@ -4975,7 +4976,7 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapImage(
                    << " )");
     return NULL;
   }
-  if (origin[2] + region[2] > depth)
+  if (origin[2] > depth || region[2] > depth - origin[2])
   {
     SetErrorInfo(command_queue->context, CL_INVALID_VALUE,
                  "origin[2] + region[2] > depth ("
-- 
2.43.0


From 0113a2b69e854c13824904c4f66ecff5482df35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:55 +0000
Subject: [PATCH 20/82] fix: destructor callbacks of 1D images created from
 buffers

They never ran, while those of the buffer were copied to the image.
---
 src/runtime/runtime.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 34f342c..61d854c 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -1764,6 +1764,8 @@ cl_mem createImage(cl_context context, cl_mem_flags flags,
   image->desc.image_depth = depth;
   image->desc.image_array_size = arraySize;
   image->refCount = 1;
+  image->callbacks = {};
+  image->properties.clear();
   if (image_desc->image_type != CL_MEM_OBJECT_IMAGE1D_BUFFER)
   {
     delete mem;
@@ -1895,14 +1897,14 @@ CL_API_ENTRY cl_int CL_API_CALL clReleaseMemObject(cl_mem memobj)
           memobj->address);
         clReleaseContext(memobj->context);
       }
+    }
 
-      while (!memobj->callbacks.empty())
-      {
-        pair<void(CL_CALLBACK*)(cl_mem, void*), void*> callback =
-          memobj->callbacks.top();
-        callback.first(memobj, callback.second);
-        memobj->callbacks.pop();
-      }
+    while (!memobj->callbacks.empty())
+    {
+      pair<void(CL_CALLBACK*)(cl_mem, void*), void*> callback =
+        memobj->callbacks.top();
+      callback.first(memobj, callback.second);
+      memobj->callbacks.pop();
     }
 
     delete memobj;
-- 
2.43.0


From 4962d20d4b3edea9ed829e1d03e27465b819e6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:55 +0000
Subject: [PATCH 21/82] fix: keep the context of an event or sampler alive

Both use their context when they report errors and answer queries, but did
not retain it, so that it could be destroyed before them.
---
 src/runtime/async_queue.cpp | 1 +
 src/runtime/runtime.cpp     | 8 ++++++++
 2 files changed, 9 insertions(+)

diff --git a/src/runtime/async_queue.cpp b/src/runtime/async_queue.cpp
index b4386c0..9023899 100644
--- a/src/runtime/async_queue.cpp
+++ b/src/runtime/async_queue.cpp
@@ -48,6 +48,7 @@ void asyncEnqueue(cl_command_queue queue, cl_command_type type, Command* cmd,
   _event->type = type;
   _event->event = event;
   _event->refCount = 1;
+  clRetainContext(_event->context);
 
   // Add event to map
   eventMap[cmd] = _event;
diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 61d854c..22b78ad 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -2300,6 +2300,8 @@ clCreateSampler(cl_context context, cl_bool normalized_coords,
   sampler->sampler = bitfield;
   sampler->refCount = 1;
 
+  clRetainContext(context);
+
   SetError(context, CL_SUCCESS);
   return sampler;
 }
@@ -2331,6 +2333,7 @@ CL_API_ENTRY cl_int CL_API_CALL clReleaseSampler(cl_sampler sampler)
 
   if (--sampler->refCount == 0)
   {
+    clReleaseContext(sampler->context);
     delete sampler;
   }
 
@@ -3573,6 +3576,8 @@ CL_API_ENTRY cl_event CL_API_CALL clCreateUserEvent(
   event->event->queue = NULL;
   event->refCount = 1;
 
+  clRetainContext(context);
+
   SetError(context, CL_SUCCESS);
   return event;
 }
@@ -3608,6 +3613,7 @@ CL_API_ENTRY cl_int CL_API_CALL clReleaseEvent(cl_event event)
     {
       delete event->event;
     }
+    clReleaseContext(event->context);
     delete event;
   }
 
@@ -5986,6 +5992,8 @@ CL_API_ENTRY cl_sampler CL_API_CALL clCreateSamplerWithProperties(
                                sampler_properties + numProperties);
   }
 
+  clRetainContext(context);
+
   SetError(context, CL_SUCCESS);
   return sampler;
 }
-- 
2.43.0


From 4bcc5ed2ffe7d1d8817a3937e1af0f4f4f817095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:06 +0000
Subject: [PATCH 22/82] fix: image arguments of cloned kernels

The argument values of a clone pointed to image structs owned by the source
kernel.  Share the ownership of those structs.
---
 src/runtime/icd.h       |  3 ++-
 src/runtime/runtime.cpp | 19 +++----------------
 2 files changed, 5 insertions(+), 17 deletions(-)

diff --git a/src/runtime/icd.h b/src/runtime/icd.h
index b9c8ee3..f882b75 100644
--- a/src/runtime/icd.h
+++ b/src/runtime/icd.h
@@ -117,6 +117,7 @@
 #include <cstdint>
 #include <list>
 #include <map>
+#include <memory>
 #include <stack>
 #include <vector>
 
@@ -222,7 +223,7 @@ struct _cl_kernel
   oclgrind::Kernel* kernel;
   cl_program program;
   std::map<cl_uint, cl_mem> memArgs;
-  std::vector<oclgrind::Image*> imageArgs;
+  std::vector<std::shared_ptr<oclgrind::Image>> imageArgs;
   unsigned int refCount;
 };
 
diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 22b78ad..41a84b5 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -3067,13 +3067,6 @@ CL_API_ENTRY cl_int CL_API_CALL clReleaseKernel(cl_kernel kernel)
 
   if (--kernel->refCount == 0)
   {
-
-    // Release memory allocated for image arguments
-    for (auto* img : kernel->imageArgs)
-    {
-      delete img;
-    }
-
     delete kernel->kernel;
 
     clReleaseProgram(kernel->program);
@@ -3162,7 +3155,7 @@ clSetKernelArg(cl_kernel kernel, cl_uint arg_index, size_t arg_size,
         image->desc = ((cl_image*)mem)->desc;
         *(oclgrind::Image**)value.data = image;
         // Keep a record of the image struct for releasing it later
-        kernel->imageArgs.push_back(image);
+        kernel->imageArgs.emplace_back(image);
       }
       else
       {
@@ -6035,14 +6028,8 @@ CL_API_ENTRY cl_kernel CL_API_CALL clCloneKernel(
   kernel->kernel = new oclgrind::Kernel(*source_kernel->kernel);
   kernel->program = source_kernel->program;
   kernel->memArgs = source_kernel->memArgs;
-  for (auto src_img : source_kernel->imageArgs)
-  {
-    oclgrind::Image* image = new oclgrind::Image;
-    image->address = src_img->address;
-    image->format = src_img->format;
-    image->desc = src_img->desc;
-    kernel->imageArgs.push_back(image);
-  }
+  // The argument values refer to the image structs of the source kernel
+  kernel->imageArgs = source_kernel->imageArgs;
   kernel->refCount = 1;
 
   clRetainProgram(kernel->program);
-- 
2.43.0


From 1e9c6941b47684dd268b90d92401ba410f3746cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:51 +0000
Subject: [PATCH 23/82] fix: failing allocations of buffer contents

Memory::allocateBuffer is documented by its callers to return 0 when there is
no memory, but threw an exception that nothing catches.  Report local memory
that could not be allocated as a fatal kernel error.
---
 src/core/Memory.cpp    | 11 ++++++++++-
 src/core/Program.cpp   |  3 ++-
 src/core/WorkGroup.cpp |  5 +++++
 src/core/WorkItem.cpp  |  2 ++
 4 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/core/Memory.cpp b/src/core/Memory.cpp
index ef75e92..98cb3fc 100644
--- a/src/core/Memory.cpp
+++ b/src/core/Memory.cpp
@@ -12,6 +12,7 @@
 #include <cmath>
 #include <cstring>
 #include <mutex>
+#include <new>
 
 #include "Context.h"
 #include "Memory.h"
@@ -54,10 +55,18 @@ size_t Memory::allocateBuffer(size_t size, cl_mem_flags flags,
     return 0;
   }
 
+  // Allocate memory for contents of buffer
+  unsigned char* data = new (nothrow) unsigned char[size];
+  if (!data)
+  {
+    return 0;
+  }
+
   // Find first unallocated buffer slot
   unsigned b = getNextBuffer();
   if (b >= m_maxNumBuffers)
   {
+    delete[] data;
     return 0;
   }
 
@@ -65,7 +74,7 @@ size_t Memory::allocateBuffer(size_t size, cl_mem_flags flags,
   Buffer* buffer = new Buffer;
   buffer->size = size;
   buffer->flags = flags;
-  buffer->data = new unsigned char[size];
+  buffer->data = data;
 
   if (b >= m_memory.size())
   {
diff --git a/src/core/Program.cpp b/src/core/Program.cpp
index e307af3..93a871e 100644
--- a/src/core/Program.cpp
+++ b/src/core/Program.cpp
@@ -785,7 +785,8 @@ void Program::deallocateProgramScopeVars()
   for (auto psv = m_programScopeVars.begin(); psv != m_programScopeVars.end();
        psv++)
   {
-    m_context->getGlobalMemory()->deallocateBuffer(psv->second.getPointer());
+    if (size_t address = psv->second.getPointer())
+      m_context->getGlobalMemory()->deallocateBuffer(address);
     delete[] psv->second.data;
   }
   m_programScopeVars.clear();
diff --git a/src/core/WorkGroup.cpp b/src/core/WorkGroup.cpp
index 5786b52..4cf8458 100644
--- a/src/core/WorkGroup.cpp
+++ b/src/core/WorkGroup.cpp
@@ -49,6 +49,11 @@ WorkGroup::WorkGroup(const KernelInvocation* kernelInvocation, Size3 wgid,
     if (type->isPointerTy() && type->getPointerAddressSpace() == AddrSpaceLocal)
     {
       size_t ptr = m_localMemory->allocateBuffer(value->second.size);
+      if (!ptr)
+      {
+        delete m_localMemory;
+        FATAL_ERROR("Insufficient local memory");
+      }
       m_localAddresses[value->first] = ptr;
     }
   }
diff --git a/src/core/WorkItem.cpp b/src/core/WorkItem.cpp
index 6261b58..7bbadcb 100644
--- a/src/core/WorkItem.cpp
+++ b/src/core/WorkItem.cpp
@@ -906,6 +906,8 @@ INSTRUCTION(call)
         void* data = m_privateMemory->getPointer(value.getPointer());
         size_t size = getTypeSize(argItr->getParamByValType());
         size_t ptr = m_privateMemory->allocateBuffer(size, 0, (uint8_t*)data);
+        if (!ptr)
+          FATAL_ERROR("Insufficient private memory (byval argument)");
         m_position->allocations.top().push_back(ptr);
 
         // Pass new allocation to function
-- 
2.43.0


From bed597ddc493dc6228314dca8329771228600574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:13 +0000
Subject: [PATCH 24/82] fix: regions outside of images

Reading, writing and copying images only checked that the last byte was
inside of the image's memory, so that a region that is too wide silently
accessed the neighbouring rows.
---
 src/runtime/runtime.cpp | 59 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 59 insertions(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 41a84b5..9c4691a 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -252,6 +252,35 @@ cl_int checkEventWaitList(cl_context context, cl_uint num_events_in_wait_list,
   return CL_SUCCESS;
 }
 
+cl_int checkImageRegion(cl_context context, cl_mem image, const size_t* origin,
+                        const size_t* region)
+{
+  const cl_image_desc& desc = ((cl_image*)image)->desc;
+  size_t size[3] = {desc.image_width, desc.image_height, desc.image_depth};
+  if (desc.image_type == CL_MEM_OBJECT_IMAGE1D_ARRAY)
+    size[1] = desc.image_array_size;
+  if (desc.image_type == CL_MEM_OBJECT_IMAGE2D_ARRAY)
+    size[2] = desc.image_array_size;
+
+  for (unsigned i = 0; i < 3; i++)
+  {
+    if (!region[i])
+    {
+      ReturnErrorInfo(context, CL_INVALID_VALUE,
+                      "Values in region cannot be 0");
+    }
+    if (origin[i] > size[i] || region[i] > size[i] - origin[i])
+    {
+      ReturnErrorInfo(context, CL_INVALID_VALUE,
+                      "origin[" << i << "] + region[" << i
+                                << "] exceeds image bounds (" << origin[i]
+                                << " + " << region[i] << " > " << size[i]
+                                << ")");
+    }
+  }
+  return CL_SUCCESS;
+}
+
 static struct _cl_platform_id* m_platform = NULL;
 static struct _cl_device_id* m_device = NULL;
 
@@ -4531,6 +4560,11 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadImage(
   {
     return err;
   }
+  if (auto err = checkImageRegion(command_queue->context, image, origin, region);
+      err != CL_SUCCESS)
+  {
+    return err;
+  }
 
   cl_image* img = (cl_image*)image;
 
@@ -4592,6 +4626,11 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteImage(
   {
     return err;
   }
+  if (auto err = checkImageRegion(command_queue->context, image, origin, region);
+      err != CL_SUCCESS)
+  {
+    return err;
+  }
 
   cl_image* img = (cl_image*)image;
 
@@ -4672,6 +4711,16 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyImage(
   {
     return err;
   }
+  if (auto err = checkImageRegion(command_queue->context, src_image, src_origin, region);
+      err != CL_SUCCESS)
+  {
+    return err;
+  }
+  if (auto err = checkImageRegion(command_queue->context, dst_image, dst_origin, region);
+      err != CL_SUCCESS)
+  {
+    return err;
+  }
 
   size_t srcPixelSize = getPixelSize(&src->format);
   size_t dstPixelSize = getPixelSize(&dst->format);
@@ -4726,6 +4775,11 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyImageToBuffer(
   {
     return err;
   }
+  if (auto err = checkImageRegion(command_queue->context, src_image, src_origin, region);
+      err != CL_SUCCESS)
+  {
+    return err;
+  }
 
   cl_image* src = (cl_image*)src_image;
   size_t pixel_size = getPixelSize(&src->format);
@@ -4776,6 +4830,11 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyBufferToImage(
   {
     return err;
   }
+  if (auto err = checkImageRegion(command_queue->context, dst_image, dst_origin, region);
+      err != CL_SUCCESS)
+  {
+    return err;
+  }
 
   cl_image* dst = (cl_image*)dst_image;
   size_t pixel_size = getPixelSize(&dst->format);
-- 
2.43.0


From e33154c12e897b5186484652a5f95fc501b33cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:47 +0000
Subject: [PATCH 25/82] fix: clSetKernelArg with a NULL value for a by-value
 argument

It crashed instead of returning CL_INVALID_ARG_VALUE.
---
 src/runtime/runtime.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 9c4691a..f097581 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -3162,6 +3162,12 @@ clSetKernelArg(cl_kernel kernel, cl_uint arg_index, size_t arg_size,
     }
     else
     {
+      if (!arg_value)
+      {
+        delete[] value.data;
+        ReturnErrorArg(kernel->program->context, CL_INVALID_ARG_VALUE,
+                       arg_value);
+      }
       memcpy(value.data, arg_value, arg_size);
     }
     break;
-- 
2.43.0


From 052018519b4387fccdff3516dbe5167aaa46e7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:47 +0000
Subject: [PATCH 26/82] fix: clEnqueueNDRangeKernel and clEnqueueTask with a
 NULL kernel

They crashed instead of returning CL_INVALID_KERNEL.
---
 src/runtime/runtime.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index f097581..f311aca 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -5178,6 +5178,10 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueNDRangeKernel(
   {
     ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
   }
+  if (!kernel)
+  {
+    ReturnErrorArg(command_queue->context, CL_INVALID_KERNEL, kernel);
+  }
   if (work_dim < 1 || work_dim > 3)
   {
     ReturnErrorInfo(
-- 
2.43.0


From 7c725d2e372b95600a09aff2648396de35b5d298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:47 +0000
Subject: [PATCH 27/82] fix: clEnqueueNDRangeKernel with a local size of zero

The check of uniform work-group sizes divided by zero.
---
 src/runtime/runtime.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index f311aca..f381445 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -5208,6 +5208,11 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueNDRangeKernel(
   kernel->kernel->getRequiredWorkGroupSize(reqdWorkGroupSize);
   for (unsigned i = 0; i < work_dim; i++)
   {
+    if (local_work_size && local_work_size[i] == 0)
+    {
+      ReturnErrorInfo(command_queue->context, CL_INVALID_WORK_GROUP_SIZE,
+                      "local_work_size[" << i << "] is 0");
+    }
     if (kernel->kernel->requiresUniformWorkGroups() && local_work_size &&
         global_work_size[i] % local_work_size[i])
     {
-- 
2.43.0


From 8e9e56196db6f29e1f8089aa923dd98ee5bf8bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:36 +0000
Subject: [PATCH 28/82] fix: keep boolean values as 0 or 1

---
 src/core/WorkItem.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/core/WorkItem.cpp b/src/core/WorkItem.cpp
index 7bbadcb..66e1d61 100644
--- a/src/core/WorkItem.cpp
+++ b/src/core/WorkItem.cpp
@@ -990,7 +990,6 @@ INSTRUCTION(fcmp)
   TypedValue opA = getOperand(instruction->getOperand(0));
   TypedValue opB = getOperand(instruction->getOperand(1));
 
-  uint64_t t = result.num > 1 ? -1 : 1;
   for (unsigned i = 0; i < result.num; i++)
   {
     double a = opA.getFloat(i);
@@ -1041,7 +1040,7 @@ INSTRUCTION(fcmp)
       r = !llvm::CmpInst::isOrdered(pred);
     }
 
-    result.setUInt(r ? t : 0, i);
+    result.setUInt(r ? 1 : 0, i);
   }
 }
 
@@ -1157,7 +1156,6 @@ INSTRUCTION(icmp)
   TypedValue opA = getOperand(instruction->getOperand(0));
   TypedValue opB = getOperand(instruction->getOperand(1));
 
-  uint64_t t = result.num > 1 ? -1 : 1;
   for (unsigned i = 0; i < result.num; i++)
   {
     // Load operands
@@ -1203,7 +1201,7 @@ INSTRUCTION(icmp)
       FATAL_ERROR("Unsupported ICmp predicate: %d", pred);
     }
 
-    result.setUInt(r ? t : 0, i);
+    result.setUInt(r ? 1 : 0, i);
   }
 }
 
@@ -1266,9 +1264,11 @@ INSTRUCTION(inttoptr)
 INSTRUCTION(itrunc)
 {
   TypedValue op = getOperand(instruction->getOperand(0));
+  const bool i1 = instruction->getType()->getScalarSizeInBits() == 1;
   for (unsigned i = 0; i < result.num; i++)
   {
-    result.setUInt(op.getUInt(i), i);
+    uint64_t val = op.getUInt(i);
+    result.setUInt(i1 ? val & 1 : val, i);
   }
 }
 
@@ -1410,7 +1410,7 @@ INSTRUCTION(sext)
   for (unsigned i = 0; i < result.num; i++)
   {
     int64_t val = value.getSInt(i);
-    if (operand->getType()->getPrimitiveSizeInBits() == 1)
+    if (operand->getType()->getScalarSizeInBits() == 1)
     {
       val = val ? -1 : 0;
     }
-- 
2.43.0


From 7296c85b88412683879dd5ade0bf4b9ec95c694f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:36 +0000
Subject: [PATCH 29/82] fix: round signed integers only once when converting
 them to float

---
 src/core/WorkItem.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/WorkItem.cpp b/src/core/WorkItem.cpp
index 66e1d61..51cddc5 100644
--- a/src/core/WorkItem.cpp
+++ b/src/core/WorkItem.cpp
@@ -1468,7 +1468,11 @@ INSTRUCTION(sitofp)
   TypedValue op = getOperand(instruction->getOperand(0));
   for (unsigned i = 0; i < result.num; i++)
   {
-    result.setFloat(op.getSInt(i), i);
+    int64_t in = op.getSInt(i);
+    if (result.size == 4)
+      result.setFloat((float)in, i);
+    else
+      result.setFloat((double)in, i);
   }
 }
 
-- 
2.43.0


From 0dfe2b2b68a94565b577b7198795021a4d8e7c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:05 +0000
Subject: [PATCH 30/82] fix: saturation of add_sat, sub_sat and mad_sat with
 long operands

---
 src/core/WorkItemBuiltins.cpp | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index d09483c..ebb2014 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -1903,10 +1903,10 @@ class WorkItemBuiltins
         result.setSInt(sresult, i);
         break;
       case 'l':
-        if ((SARGV(0, i) > 0) == (SARGV(1, i) > 0) &&
-            (SARGV(0, i) > 0) != (sresult > 0))
+        if ((SARGV(0, i) >= 0) == (SARGV(1, i) >= 0) &&
+            (SARGV(0, i) >= 0) != (sresult >= 0))
         {
-          sresult = (SARGV(0, i) > 0) ? INT64_MAX : INT64_MIN;
+          sresult = (SARGV(0, i) >= 0) ? INT64_MAX : INT64_MIN;
         }
         result.setSInt(sresult, i);
         break;
@@ -2104,23 +2104,18 @@ class WorkItemBuiltins
         result.setSInt(sresult, i);
         break;
       case 'l':
-        // Check for overflow in multiplication
-        if (_smul_hi_(SARGV(0, i), SARGV(1, i), 64))
+      {
+        // Compute the upper half of the 128-bit result
+        const int64_t c = SARGV(2, i);
+        int64_t hi = _smul_hi_(SARGV(0, i), SARGV(1, i), 64);
+        hi += (c < 0 ? -1 : 0) + ((uint64_t)sresult < (uint64_t)c ? 1 : 0);
+        if (hi != (sresult < 0 ? -1 : 0))
         {
-          sresult =
-            (SARGV(0, i) > 0) ^ (SARGV(1, i) > 0) ? INT64_MIN : INT64_MAX;
-        }
-        else
-        {
-          // Check for overflow in addition
-          int64_t m = SARGV(0, i) * SARGV(1, i);
-          if ((m > 0) == (SARGV(2, i) > 0) && (m > 0) != (sresult > 0))
-          {
-            sresult = (m > 0) ? INT64_MAX : INT64_MIN;
-          }
+          sresult = hi < 0 ? INT64_MIN : INT64_MAX;
         }
         result.setSInt(sresult, i);
         break;
+      }
       default:
         FATAL_ERROR("Unsupported argument type: %c",
                     getOverloadArgType(overload));
@@ -2259,10 +2254,10 @@ class WorkItemBuiltins
         result.setSInt(sresult, i);
         break;
       case 'l':
-        if ((SARGV(0, i) > 0) != (SARGV(1, i) > 0) &&
-            (SARGV(0, i) > 0) != (sresult > 0))
+        if ((SARGV(0, i) >= 0) != (SARGV(1, i) >= 0) &&
+            (SARGV(0, i) >= 0) != (sresult >= 0))
         {
-          sresult = (SARGV(0, i) > 0) ? INT64_MAX : INT64_MIN;
+          sresult = (SARGV(0, i) >= 0) ? INT64_MAX : INT64_MIN;
         }
         result.setSInt(sresult, i);
         break;
-- 
2.43.0


From 89954df6eb1a41ddfdd647aa4bbbaaa578fb68b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:05 +0000
Subject: [PATCH 31/82] fix: round integers only once in convert_float

---
 src/core/WorkItemBuiltins.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index ebb2014..5f85108 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -3146,8 +3146,14 @@ class WorkItemBuiltins
       case 's':
       case 'i':
       case 'l':
-        result.setFloat(SARGV(0, i), i);
+      {
+        int64_t in = SARGV(0, i);
+        if (result.size == 4)
+          result.setFloat((float)in, i);
+        else
+          result.setFloat((double)in, i);
         break;
+      }
       case 'f':
       case 'd':
         result.setFloat(FARGV(0, i), i);
-- 
2.43.0


From b16a0d86587af33ddde4cf6438a17329cd952f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:42 +0000
Subject: [PATCH 32/82] fix: casts to and from integers that do not fill whole
 bytes

---
 src/core/WorkItem.cpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/core/WorkItem.cpp b/src/core/WorkItem.cpp
index 51cddc5..d42c278 100644
--- a/src/core/WorkItem.cpp
+++ b/src/core/WorkItem.cpp
@@ -821,6 +821,22 @@ INSTRUCTION(ashr)
 INSTRUCTION(bitcast)
 {
   TypedValue operand = getOperand(instruction->getOperand(0));
+  const unsigned from =
+    instruction->getOperand(0)->getType()->getScalarSizeInBits();
+  const unsigned to = instruction->getType()->getScalarSizeInBits();
+  if (from != to && (from % 8 || to % 8))
+  {
+    // Values that do not fill whole bytes (e.g. vectors of booleans)
+    memset(result.data, 0, result.size * result.num);
+    for (unsigned i = 0; i < from * operand.num; i++)
+    {
+      const unsigned in = (i / from) * operand.size * 8 + i % from;
+      const unsigned out = (i / to) * result.size * 8 + i % to;
+      if (operand.data[in / 8] >> (in % 8) & 1)
+        result.data[out / 8] |= 1 << (out % 8);
+    }
+    return;
+  }
   memcpy(result.data, operand.data, result.size * result.num);
 }
 
@@ -1264,11 +1280,12 @@ INSTRUCTION(inttoptr)
 INSTRUCTION(itrunc)
 {
   TypedValue op = getOperand(instruction->getOperand(0));
-  const bool i1 = instruction->getType()->getScalarSizeInBits() == 1;
+  // Discard bits beyond the width of types that do not fill whole bytes
+  const unsigned bits = instruction->getType()->getScalarSizeInBits();
+  const uint64_t mask = bits < 64 ? ((uint64_t)1 << bits) - 1 : UINT64_MAX;
   for (unsigned i = 0; i < result.num; i++)
   {
-    uint64_t val = op.getUInt(i);
-    result.setUInt(i1 ? val & 1 : val, i);
+    result.setUInt(op.getUInt(i) & mask, i);
   }
 }
 
-- 
2.43.0


From 3a1d1795963904e1fb92c6a11c3310796350f4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:08 +0000
Subject: [PATCH 33/82] fix: address of vector components stored through
 pointers to other types

---
 src/core/Program.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/core/Program.cpp b/src/core/Program.cpp
index 93a871e..83b245d 100644
--- a/src/core/Program.cpp
+++ b/src/core/Program.cpp
@@ -981,7 +981,12 @@ llvm::GetElementPtrInst* createScalarGEP(llvm::Value* ptr, llvm::Value* index,
 {
   // Create GEP for scalar value
   llvm::GetElementPtrInst* scalarPtr = NULL;
-  if (auto gep = llvm::dyn_cast<llvm::GetElementPtrInst>(ptr))
+  auto* gep = llvm::dyn_cast<llvm::GetElementPtrInst>(ptr);
+  auto* storeScalarType = store->getValueOperand()->getType()->getScalarType();
+  if (gep && (gep->getResultElementType()->isIntegerTy(8) ||
+              (gep->getResultElementType()->isVectorTy() &&
+               gep->getResultElementType()->getScalarType() ==
+                 storeScalarType)))
   {
     // Create GEP from existing GEP
     std::vector<llvm::Value*> indices;
@@ -993,8 +998,7 @@ llvm::GetElementPtrInst* createScalarGEP(llvm::Value* ptr, llvm::Value* index,
     auto* gepResultType = gep->getResultElementType();
     if (gepResultType->isIntegerTy(8))
     {
-      auto byteOffset =
-        getTypeSize(store->getValueOperand()->getType()->getScalarType());
+      auto byteOffset = getTypeSize(storeScalarType);
       auto* mul = llvm::BinaryOperator::CreateMul(
         index,
         llvm::Constant::getIntegerValue(
-- 
2.43.0


From 499e3de4e29ee840aa21caffe3e807aa1fe3c368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:08 +0000
Subject: [PATCH 34/82] fix: discard excess bits of integers that do not fill
 whole bytes

---
 src/core/WorkItem.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/core/WorkItem.cpp b/src/core/WorkItem.cpp
index d42c278..8e4c31f 100644
--- a/src/core/WorkItem.cpp
+++ b/src/core/WorkItem.cpp
@@ -315,6 +315,17 @@ void WorkItem::execute(const llvm::Instruction* instruction)
   // Execute instruction
   dispatch(instruction, result);
 
+  // Discard bits beyond the width of types that do not fill whole bytes
+  const unsigned resultBits = instruction->getType()->getScalarSizeInBits();
+  if (resultBits % 8)
+  {
+    const uint64_t mask = ((uint64_t)1 << resultBits) - 1;
+    for (unsigned i = 0; i < result.num; i++)
+    {
+      result.setUInt(result.getUInt(i) & mask, i);
+    }
+  }
+
   // Store result
   if (result.size)
   {
@@ -1280,12 +1291,9 @@ INSTRUCTION(inttoptr)
 INSTRUCTION(itrunc)
 {
   TypedValue op = getOperand(instruction->getOperand(0));
-  // Discard bits beyond the width of types that do not fill whole bytes
-  const unsigned bits = instruction->getType()->getScalarSizeInBits();
-  const uint64_t mask = bits < 64 ? ((uint64_t)1 << bits) - 1 : UINT64_MAX;
   for (unsigned i = 0; i < result.num; i++)
   {
-    result.setUInt(op.getUInt(i) & mask, i);
+    result.setUInt(op.getUInt(i), i);
   }
 }
 
@@ -1427,9 +1435,12 @@ INSTRUCTION(sext)
   for (unsigned i = 0; i < result.num; i++)
   {
     int64_t val = value.getSInt(i);
-    if (operand->getType()->getScalarSizeInBits() == 1)
+    if (operand->getType()->getScalarSizeInBits() % 8)
     {
-      val = val ? -1 : 0;
+      // Types that do not fill whole bytes are stored zero-extended
+      const int64_t sign = (int64_t)1
+                           << (operand->getType()->getScalarSizeInBits() - 1);
+      val = (val ^ sign) - sign;
     }
     result.setSInt(val, i);
   }
-- 
2.43.0


From 1bb2d9607658d7d616c6749099b5bcf392c5eeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:18 +0000
Subject: [PATCH 35/82] fix: convert NaN to zero in saturating conversions

---
 src/core/WorkItemBuiltins.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 5f85108..f1853e0 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -3269,7 +3269,11 @@ class WorkItemBuiltins
       }
       case 'f':
       case 'd':
-        if (sat)
+        if (sat && std::isnan(FARGV(0, i)))
+        {
+          r = 0;
+        }
+        else if (sat)
         {
           r = rint(_clamp_((long double)FARGV(0, i), 0.0L, (long double)max));
         }
@@ -3346,7 +3350,11 @@ class WorkItemBuiltins
         break;
       case 'f':
       case 'd':
-        if (sat)
+        if (sat && std::isnan(FARGV(0, i)))
+        {
+          r = 0;
+        }
+        else if (sat)
         {
           r = rint(_clamp_((long double)FARGV(0, i), (long double)min,
                            (long double)max));
-- 
2.43.0


From 09c433aabbd8745d11808397d0fc54b51c4424ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:26 +0000
Subject: [PATCH 36/82] fix: sign extension of integers that do not fill whole
 bytes

---
 src/core/WorkItem.cpp | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/core/WorkItem.cpp b/src/core/WorkItem.cpp
index 8e4c31f..0a84b2a 100644
--- a/src/core/WorkItem.cpp
+++ b/src/core/WorkItem.cpp
@@ -776,6 +776,19 @@ WorkItem::State WorkItem::step()
 //// Instruction execution ////
 ///////////////////////////////
 
+// Sign extend integers that do not fill whole bytes, which are stored
+// zero-extended (e.g. booleans)
+static int64_t signExtend(int64_t value, const llvm::Type* type)
+{
+  const unsigned bits = type->getScalarSizeInBits();
+  if (bits % 8)
+  {
+    const int64_t sign = (int64_t)1 << (bits - 1);
+    return (value ^ sign) - sign;
+  }
+  return value;
+}
+
 #define INSTRUCTION(name)                                                      \
   void WorkItem::name(const llvm::Instruction* instruction, TypedValue& result)
 
@@ -1188,8 +1201,9 @@ INSTRUCTION(icmp)
     // Load operands
     uint64_t ua = opA.getUInt(i);
     uint64_t ub = opB.getUInt(i);
-    int64_t sa = opA.getSInt(i);
-    int64_t sb = opB.getSInt(i);
+    const llvm::Type* type = instruction->getOperand(0)->getType();
+    int64_t sa = signExtend(opA.getSInt(i), type);
+    int64_t sb = signExtend(opB.getSInt(i), type);
 
     uint64_t r;
     switch (pred)
@@ -1435,14 +1449,7 @@ INSTRUCTION(sext)
   for (unsigned i = 0; i < result.num; i++)
   {
     int64_t val = value.getSInt(i);
-    if (operand->getType()->getScalarSizeInBits() % 8)
-    {
-      // Types that do not fill whole bytes are stored zero-extended
-      const int64_t sign = (int64_t)1
-                           << (operand->getType()->getScalarSizeInBits() - 1);
-      val = (val ^ sign) - sign;
-    }
-    result.setSInt(val, i);
+    result.setSInt(signExtend(val, operand->getType()), i);
   }
 }
 
@@ -1496,7 +1503,8 @@ INSTRUCTION(sitofp)
   TypedValue op = getOperand(instruction->getOperand(0));
   for (unsigned i = 0; i < result.num; i++)
   {
-    int64_t in = op.getSInt(i);
+    int64_t in =
+      signExtend(op.getSInt(i), instruction->getOperand(0)->getType());
     if (result.size == 4)
       result.setFloat((float)in, i);
     else
-- 
2.43.0


From 12b9af0f01e4fee40ce0776b9fddc9ced31c09cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:27 +0000
Subject: [PATCH 37/82] fix: evaluate constant expressions inside of constants

---
 src/core/common.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/core/common.cpp b/src/core/common.cpp
index ee899e9..b8e782c 100644
--- a/src/core/common.cpp
+++ b/src/core/common.cpp
@@ -11,6 +11,8 @@
 
 #include <chrono>
 
+#include "llvm/Analysis/ConstantFolding.h"
+#include "llvm/IR/DataLayout.h"
 #include "llvm/IR/Instructions.h"
 #include "llvm/IR/Metadata.h"
 #include "llvm/IR/Operator.h"
@@ -337,6 +339,19 @@ void getConstantData(unsigned char* data, const llvm::Constant* constant)
   const llvm::Type* type = constant->getType();
   unsigned size = getTypeSize(type);
 
+  if (llvm::isa<llvm::ConstantExpr>(constant) && !type->isPointerTy())
+  {
+    // Evaluate expressions, which may occur in elements of other constants
+    const llvm::Constant* folded =
+      llvm::ConstantFoldConstant(constant, llvm::DataLayout("e"));
+    if (llvm::isa<llvm::ConstantExpr>(folded))
+    {
+      FATAL_ERROR("Unsupported constant expression");
+    }
+    getConstantData(data, folded);
+    return;
+  }
+
   if (llvm::isa<llvm::UndefValue>(constant))
   {
     memset(data, 0, size);
-- 
2.43.0


From d33e852591d2fdfa5645838f55d13406201ae2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:56 +0000
Subject: [PATCH 38/82] fix: vector stores whose components were loaded before
 other stores

---
 src/core/Program.cpp | 43 +++++++++++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/src/core/Program.cpp b/src/core/Program.cpp
index 83b245d..63aed0a 100644
--- a/src/core/Program.cpp
+++ b/src/core/Program.cpp
@@ -1028,6 +1028,30 @@ llvm::GetElementPtrInst* createScalarGEP(llvm::Value* ptr, llvm::Value* index,
 
   return scalarPtr;
 }
+
+// Check whether a value comes from a load with the same address as a store,
+// with nothing in between that could modify the loaded memory
+bool isLoadedFromDest(const llvm::Value* value, const llvm::StoreInst* store)
+{
+  auto* load = llvm::dyn_cast<llvm::LoadInst>(value);
+  if (!load || load->getPointerOperand() != store->getPointerOperand() ||
+      load->getParent() != store->getParent())
+    return false;
+
+  for (const llvm::Instruction* inst = load; inst && inst != store;
+       inst = inst->getNextNode())
+  {
+    if (!inst->mayWriteToMemory() || inst->isLifetimeStartOrEnd())
+      continue;
+
+    // Stores to other address spaces do not modify the loaded memory
+    auto* other = llvm::dyn_cast<llvm::StoreInst>(inst);
+    if (!other || other->getPointerAddressSpace() ==
+                    store->getPointerAddressSpace())
+      return false;
+  }
+  return true;
+}
 } // namespace
 
 void Program::scalarizeAggregateStore(llvm::StoreInst* store)
@@ -1046,6 +1070,10 @@ void Program::scalarizeAggregateStore(llvm::StoreInst* store)
     llvm::Value* value = insert->getOperand(1);
     llvm::Value* index = insert->getOperand(2);
 
+    // Check if the input to the insertelement instruction came from something
+    // other than a load to the same address as the store
+    const bool vectorIsDest = isLoadedFromDest(vector, store);
+
     // Create GEP for scalar value
     llvm::GetElementPtrInst* scalarPtr =
       createScalarGEP(vectorPtr, index, store, gepIndexType);
@@ -1057,10 +1085,7 @@ void Program::scalarizeAggregateStore(llvm::StoreInst* store)
     scalarStore->setDebugLoc(store->getDebugLoc());
     scalarStore->insertAfter(scalarPtr);
 
-    // Check if the input to the insertelement instruction came from something
-    // other than a load to the same address as the store
-    llvm::LoadInst* load = llvm::dyn_cast<llvm::LoadInst>(vector);
-    if (!(load && load->getPointerOperand() == store->getPointerOperand()))
+    if (!vectorIsDest)
     {
       // Replace value in store with the input to the insertelement instruction
       llvm::StoreInst* _store =
@@ -1087,14 +1112,8 @@ void Program::scalarizeAggregateStore(llvm::StoreInst* store)
       llvm::cast<llvm::FixedVectorType>(v1->getType())->getNumElements();
 
     // Check if shuffle sources came from a load with same address as the store
-    llvm::LoadInst* load;
-    bool v1SourceIsDest = false, v2SourceIsDest = false;
-    if ((load = llvm::dyn_cast<llvm::LoadInst>(v1)) &&
-        load->getPointerOperand() == vectorPtr)
-      v1SourceIsDest = true;
-    if ((load = llvm::dyn_cast<llvm::LoadInst>(v2)) &&
-        load->getPointerOperand() == vectorPtr)
-      v2SourceIsDest = true;
+    const bool v1SourceIsDest = isLoadedFromDest(v1, store);
+    const bool v2SourceIsDest = isLoadedFromDest(v2, store);
 
     // Get mask indices that don't correspond to the destination vector
     stack<unsigned> indices;
-- 
2.43.0


From 9c7bfafb96232da3a8bca402d7a726502896f6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:54 +0000
Subject: [PATCH 39/82] fix: loads and stores of vectors of integers that do
 not fill whole bytes

---
 src/core/WorkItem.cpp | 47 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 40 insertions(+), 7 deletions(-)

diff --git a/src/core/WorkItem.cpp b/src/core/WorkItem.cpp
index 0a84b2a..44a9687 100644
--- a/src/core/WorkItem.cpp
+++ b/src/core/WorkItem.cpp
@@ -842,6 +842,21 @@ INSTRUCTION(ashr)
   }
 }
 
+// Copy the bits of a sequence of values that do not fill whole bytes.
+// Each value has the given number of bits and occupies 'stride' bits.
+static void copyBits(unsigned char* dest, unsigned destBits, unsigned destStride,
+                     const unsigned char* src, unsigned srcBits,
+                     unsigned srcStride, unsigned total)
+{
+  for (unsigned i = 0; i < total; i++)
+  {
+    const unsigned in = (i / srcBits) * srcStride + i % srcBits;
+    const unsigned out = (i / destBits) * destStride + i % destBits;
+    if (src[in / 8] >> (in % 8) & 1)
+      dest[out / 8] |= 1 << (out % 8);
+  }
+}
+
 INSTRUCTION(bitcast)
 {
   TypedValue operand = getOperand(instruction->getOperand(0));
@@ -852,13 +867,8 @@ INSTRUCTION(bitcast)
   {
     // Values that do not fill whole bytes (e.g. vectors of booleans)
     memset(result.data, 0, result.size * result.num);
-    for (unsigned i = 0; i < from * operand.num; i++)
-    {
-      const unsigned in = (i / from) * operand.size * 8 + i % from;
-      const unsigned out = (i / to) * result.size * 8 + i % to;
-      if (operand.data[in / 8] >> (in % 8) & 1)
-        result.data[out / 8] |= 1 << (out % 8);
-    }
+    copyBits(result.data, to, result.size * 8, operand.data, from,
+             operand.size * 8, from * operand.num);
     return;
   }
   memcpy(result.data, operand.data, result.size * result.num);
@@ -1329,6 +1339,18 @@ INSTRUCTION(load)
   }
 
   // Load data
+  const llvm::Type* type = loadInst->getType();
+  const unsigned bits = type->getScalarSizeInBits();
+  if (type->isVectorTy() && bits % 8)
+  {
+    // Elements that do not fill whole bytes are packed in memory
+    vector<unsigned char> packed((bits * result.num + 7) / 8);
+    getMemory(addressSpace)->load(packed.data(), address, packed.size());
+    memset(result.data, 0, result.size * result.num);
+    copyBits(result.data, bits, result.size * 8, packed.data(), bits, bits,
+             bits * result.num);
+    return;
+  }
   getMemory(addressSpace)->load(result.data, address, result.size * result.num);
 }
 
@@ -1548,6 +1570,17 @@ INSTRUCTION(store)
 
   // Store data
   TypedValue operand = getOperand(storeInst->getValueOperand());
+  const llvm::Type* type = storeInst->getValueOperand()->getType();
+  const unsigned bits = type->getScalarSizeInBits();
+  if (type->isVectorTy() && bits % 8)
+  {
+    // Elements that do not fill whole bytes are packed in memory
+    vector<unsigned char> packed((bits * operand.num + 7) / 8);
+    copyBits(packed.data(), bits, bits, operand.data, bits, operand.size * 8,
+             bits * operand.num);
+    getMemory(addressSpace)->store(packed.data(), address, packed.size());
+    return;
+  }
   getMemory(addressSpace)
     ->store(operand.data, address, operand.size * operand.num);
 }
-- 
2.43.0


From aabb7cb5e0fa51a82a277fbd56b6fa89905ab8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:50 +0000
Subject: [PATCH 40/82] fix: printf ignored h modifiers and left its result
 undefined

---
 src/core/WorkItemBuiltins.cpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index f1853e0..63c9814 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -3394,6 +3394,7 @@ class WorkItemBuiltins
       if (c == '%')
       {
         unsigned vectorWidth = 1;
+        unsigned numBits = 0;
         string format = "%";
         while (true)
         {
@@ -3419,9 +3420,14 @@ class WorkItemBuiltins
             continue;
           }
 
-          // Ignore all 'h' specifiers
+          // 'h' and 'hh' convert integers, 'hl' is for elements of vectors
           if (c == 'h')
+          {
+            numBits = numBits ? 8 : 16;
             continue;
+          }
+          if (c == 'l')
+            numBits = 0;
 
           format += c;
           bool done = false;
@@ -3434,7 +3440,12 @@ class WorkItemBuiltins
             {
               if (i > 0)
                 printf(",");
-              printf(format.c_str(), SARGV(arg, i));
+              int64_t value = SARGV(arg, i);
+              if (numBits == 16)
+                value = (int16_t)value;
+              else if (numBits == 8)
+                value = (int8_t)value;
+              printf(format.c_str(), value);
             }
             arg++;
             done = true;
@@ -3448,7 +3459,10 @@ class WorkItemBuiltins
             {
               if (i > 0)
                 printf(",");
-              printf(format.c_str(), UARGV(arg, i));
+              uint64_t value = UARGV(arg, i);
+              if (numBits)
+                value &= (1 << numBits) - 1;
+              printf(format.c_str(), value);
             }
             arg++;
             done = true;
@@ -3517,6 +3531,8 @@ class WorkItemBuiltins
         cout << c;
       }
     }
+
+    result.setSInt(0);
   }
 
   /////////////////////
-- 
2.43.0


From a86bf9e373f2999970177a0d112694c3c836ac2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:35 +0000
Subject: [PATCH 41/82] fix: rectangular copies accepted wrapping, empty and
 overlapping regions

---
 src/runtime/runtime.cpp | 144 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 132 insertions(+), 12 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index f381445..206c659 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -281,6 +281,64 @@ cl_int checkImageRegion(cl_context context, cl_mem image, const size_t* origin,
   return CL_SUCCESS;
 }
 
+// Utility to check the region and pitches of a rectangular transfer
+cl_int checkRect(cl_context context, const size_t* region, size_t row_pitch,
+                 size_t slice_pitch)
+{
+  if (row_pitch < region[0])
+  {
+    ReturnErrorInfo(context, CL_INVALID_VALUE,
+                    "Row pitch (" << row_pitch << ") less than region[0] ("
+                                  << region[0] << ")");
+  }
+  if (region[2] > 1 && slice_pitch / region[1] < row_pitch)
+  {
+    ReturnErrorInfo(context, CL_INVALID_VALUE,
+                    "Slice pitch (" << slice_pitch
+                                    << ") less than region[1] * row pitch ("
+                                    << region[1] << " * " << row_pitch << ")");
+  }
+  return CL_SUCCESS;
+}
+
+// Utility to check whether a rectangular region is inside a buffer
+bool isRectInBuffer(size_t size, const size_t* origin, const size_t* region,
+                    size_t row_pitch, size_t slice_pitch)
+{
+  // Add up the terms one at a time, as their sum could wrap around
+  const size_t terms[][2] = {
+    {origin[0], 1},          {origin[1], row_pitch},
+    {origin[2], slice_pitch}, {region[0], 1},
+    {region[1] - 1, row_pitch}, {region[2] - 1, slice_pitch}};
+  for (auto& term : terms)
+  {
+    if (term[0] && term[1] > size / term[0])
+      return false;
+    size -= term[0] * term[1];
+  }
+  return true;
+}
+
+// Utility to check whether two rectangular regions of a buffer overlap
+bool isRectOverlap(size_t src_offset, size_t dst_offset, const size_t* region,
+                   size_t row_pitch, size_t slice_pitch)
+{
+  // Two rows overlap if they are less than region[0] bytes apart
+  int64_t size = region[0], rows = region[1] - 1, slices = region[2] - 1;
+  for (int64_t z = -slices; z <= slices; z++)
+  {
+    // Find the row of the source before the first row of the destination
+    int64_t diff = dst_offset - src_offset + z * slice_pitch;
+    int64_t y = diff / (int64_t)row_pitch - (diff < 0);
+    for (int64_t row = max(y, -rows); row <= min(y + 1, rows); row++)
+    {
+      if (llabs(diff - row * (int64_t)row_pitch) < size)
+        return true;
+    }
+  }
+  return false;
+}
+
 static struct _cl_platform_id* m_platform = NULL;
 static struct _cl_device_id* m_device = NULL;
 
@@ -3908,6 +3966,10 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadBufferRect(
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, ptr);
   }
+  if (!region || region[0] == 0 || region[1] == 0 || region[2] == 0)
+  {
+    ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, region);
+  }
   if (buffer->flags & (CL_MEM_HOST_NO_ACCESS | CL_MEM_HOST_WRITE_ONLY))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_OPERATION,
@@ -3938,6 +4000,20 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadBufferRect(
     host_slice_pitch = region[1] * host_row_pitch;
   }
 
+  // Ensure pitches are valid
+  if (auto err = checkRect(command_queue->context, region, buffer_row_pitch,
+                           buffer_slice_pitch);
+      err != CL_SUCCESS)
+  {
+    return err;
+  }
+  if (auto err = checkRect(command_queue->context, region, host_row_pitch,
+                           host_slice_pitch);
+      err != CL_SUCCESS)
+  {
+    return err;
+  }
+
   // Compute origin offsets
   size_t buffer_offset = buffer_origin[2] * buffer_slice_pitch +
                          buffer_origin[1] * buffer_row_pitch + buffer_origin[0];
@@ -3945,9 +4021,8 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadBufferRect(
                        host_origin[1] * host_row_pitch + host_origin[0];
 
   // Ensure buffer region valid
-  size_t end = buffer_offset + region[0] + (region[1] - 1) * buffer_row_pitch +
-               (region[2] - 1) * buffer_slice_pitch;
-  if (end > buffer->size)
+  if (!isRectInBuffer(buffer->size, buffer_origin, region, buffer_row_pitch,
+                      buffer_slice_pitch))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "Region exceeds buffer size (" << buffer->size
@@ -4057,6 +4132,10 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteBufferRect(
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, ptr);
   }
+  if (!region || region[0] == 0 || region[1] == 0 || region[2] == 0)
+  {
+    ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, region);
+  }
   if (buffer->flags & (CL_MEM_HOST_NO_ACCESS | CL_MEM_HOST_READ_ONLY))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_OPERATION,
@@ -4087,6 +4166,20 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteBufferRect(
     host_slice_pitch = region[1] * host_row_pitch;
   }
 
+  // Ensure pitches are valid
+  if (auto err = checkRect(command_queue->context, region, buffer_row_pitch,
+                           buffer_slice_pitch);
+      err != CL_SUCCESS)
+  {
+    return err;
+  }
+  if (auto err = checkRect(command_queue->context, region, host_row_pitch,
+                           host_slice_pitch);
+      err != CL_SUCCESS)
+  {
+    return err;
+  }
+
   // Compute origin offsets
   size_t buffer_offset = buffer_origin[2] * buffer_slice_pitch +
                          buffer_origin[1] * buffer_row_pitch + buffer_origin[0];
@@ -4094,9 +4187,8 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteBufferRect(
                        host_origin[1] * host_row_pitch + host_origin[0];
 
   // Ensure buffer region valid
-  size_t end = buffer_offset + region[0] + (region[1] - 1) * buffer_row_pitch +
-               (region[2] - 1) * buffer_slice_pitch;
-  if (end > buffer->size)
+  if (!isRectInBuffer(buffer->size, buffer_origin, region, buffer_row_pitch,
+                      buffer_slice_pitch))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "Region exceeds buffer size (" << buffer->size
@@ -4257,6 +4349,20 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyBufferRect(
     dst_slice_pitch = region[1] * dst_row_pitch;
   }
 
+  // Ensure pitches are valid
+  if (auto err = checkRect(command_queue->context, region, src_row_pitch,
+                           src_slice_pitch);
+      err != CL_SUCCESS)
+  {
+    return err;
+  }
+  if (auto err = checkRect(command_queue->context, region, dst_row_pitch,
+                           dst_slice_pitch);
+      err != CL_SUCCESS)
+  {
+    return err;
+  }
+
   // Compute origin offsets
   size_t src_offset = src_origin[2] * src_slice_pitch +
                       src_origin[1] * src_row_pitch + src_origin[0];
@@ -4264,23 +4370,37 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyBufferRect(
                       dst_origin[1] * dst_row_pitch + dst_origin[0];
 
   // Ensure buffer region valid
-  size_t src_end = src_offset + region[0] + (region[1] - 1) * src_row_pitch +
-                   (region[2] - 1) * src_slice_pitch;
-  size_t dst_end = dst_offset + region[0] + (region[1] - 1) * dst_row_pitch +
-                   (region[2] - 1) * dst_slice_pitch;
-  if (src_end > src_buffer->size)
+  if (!isRectInBuffer(src_buffer->size, src_origin, region, src_row_pitch,
+                      src_slice_pitch))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "Region exceeds source buffer size (" << src_buffer->size
                                                           << " bytes)");
   }
-  if (dst_end > dst_buffer->size)
+  if (!isRectInBuffer(dst_buffer->size, dst_origin, region, dst_row_pitch,
+                      dst_slice_pitch))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "Region exceeds destination buffer size ("
                       << dst_buffer->size << " bytes)");
   }
 
+  // Ensure regions of the same buffer don't overlap
+  if (src_buffer == dst_buffer)
+  {
+    if (src_row_pitch != dst_row_pitch || src_slice_pitch != dst_slice_pitch)
+    {
+      ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
+                      "Pitches differ for copy inside the same buffer");
+    }
+    if (isRectOverlap(src_offset, dst_offset, region, src_row_pitch,
+                      src_slice_pitch))
+    {
+      ReturnErrorInfo(command_queue->context, CL_MEM_COPY_OVERLAP,
+                      "src_buffer == dst_buffer and regions overlap");
+    }
+  }
+
   // Enqueue command
   oclgrind::CopyRectCommand* cmd = new oclgrind::CopyRectCommand();
   cmd->src = src_buffer->address;
-- 
2.43.0


From f3fe70b3c40772a29ea058d9c9a33b26fc173672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:35 +0000
Subject: [PATCH 42/82] fix: host pointer of sub-buffers and pitches of images

---
 src/runtime/runtime.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 206c659..69e5ef5 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -1654,7 +1654,9 @@ CL_API_ENTRY cl_mem CL_API_CALL clCreateSubBuffer(
   mem->offset = region.origin;
   mem->isImage = false;
   mem->flags = memFlags;
-  mem->hostPtr = (unsigned char*)buffer->hostPtr + region.origin;
+  mem->hostPtr = buffer->hostPtr
+                   ? (unsigned char*)buffer->hostPtr + region.origin
+                   : NULL;
   mem->refCount = 1;
   mem->address = buffer->address + region.origin;
   clRetainMemObject(buffer);
@@ -2231,6 +2233,11 @@ CL_API_ENTRY cl_int CL_API_CALL clGetImageInfo(
     cl_uint cluint;
   } result_data;
 
+  // Pitches that were not specified are those of a packed image
+  size_t rowPitch = img->desc.image_row_pitch
+                      ? img->desc.image_row_pitch
+                      : img->desc.image_width * getPixelSize(&img->format);
+
   switch (param_name)
   {
   case CL_IMAGE_FORMAT:
@@ -2243,11 +2250,18 @@ CL_API_ENTRY cl_int CL_API_CALL clGetImageInfo(
     break;
   case CL_IMAGE_ROW_PITCH:
     result_size = sizeof(size_t);
-    result_data.sizet = img->desc.image_row_pitch;
+    result_data.sizet = rowPitch;
     break;
   case CL_IMAGE_SLICE_PITCH:
     result_size = sizeof(size_t);
-    result_data.sizet = img->desc.image_slice_pitch;
+    result_data.sizet = 0;
+    if (isImageArray(img->desc.image_type) ||
+        img->desc.image_type == CL_MEM_OBJECT_IMAGE3D)
+    {
+      result_data.sizet = img->desc.image_slice_pitch
+                            ? img->desc.image_slice_pitch
+                            : img->desc.image_height * rowPitch;
+    }
     break;
   case CL_IMAGE_WIDTH:
     result_size = sizeof(size_t);
-- 
2.43.0


From acfa79a0b2cdf8e709c39556ab1c4a78436b3fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:59 +0000
Subject: [PATCH 43/82] fix: kernels and commands of several host threads
 shared static state

The index of the next work-group and the maps of objects retained by commands
were static and unsynchronised, so that host threads with contexts of their own
skipped or repeated each other's work-groups or crashed.
---
 src/core/KernelInvocation.cpp | 15 ++++----
 src/core/KernelInvocation.h   |  3 ++
 src/runtime/async_queue.cpp   | 64 ++++++++++++++++++++++-------------
 3 files changed, 50 insertions(+), 32 deletions(-)

diff --git a/src/core/KernelInvocation.cpp b/src/core/KernelInvocation.cpp
index b6a6ca5..978d328 100644
--- a/src/core/KernelInvocation.cpp
+++ b/src/core/KernelInvocation.cpp
@@ -8,7 +8,6 @@
 
 #include "common.h"
 
-#include <atomic>
 #include <sstream>
 #include <thread>
 
@@ -30,12 +29,10 @@ struct
   WorkItem* workItem;
 } static THREAD_LOCAL workerState;
 
-static atomic<unsigned> nextGroupIndex;
-
 KernelInvocation::KernelInvocation(const Context* context, const Kernel* kernel,
                                    unsigned int workDim, Size3 globalOffset,
                                    Size3 globalSize, Size3 localSize)
-    : m_context(context), m_kernel(kernel)
+    : m_context(context), m_kernel(kernel), m_nextGroupIndex(0)
 {
   m_workDim = workDim;
   m_globalOffset = globalOffset;
@@ -156,7 +153,7 @@ void KernelInvocation::run(const Context* context, Kernel* kernel,
 
 void KernelInvocation::run()
 {
-  nextGroupIndex = 0;
+  m_nextGroupIndex = 0;
 
   // Create worker threads
   // TODO: Run in main thread if only 1 worker
@@ -197,7 +194,7 @@ void KernelInvocation::runWorker(int id)
       else
       {
         // Take next work-group from pending pool
-        unsigned index = nextGroupIndex++;
+        unsigned index = m_nextGroupIndex++;
         if (index >= m_workGroups.size())
           // No more work to do
           break;
@@ -297,7 +294,7 @@ bool KernelInvocation::switchWorkItem(const Size3 gid)
   if (!found)
   {
     std::vector<Size3>::iterator pItr;
-    for (pItr = m_workGroups.begin() + nextGroupIndex;
+    for (pItr = m_workGroups.begin() + m_nextGroupIndex;
          pItr != m_workGroups.end(); pItr++)
     {
       if (group == *pItr)
@@ -309,8 +306,8 @@ bool KernelInvocation::switchWorkItem(const Size3 gid)
         // Re-order list of groups accordingly
         // Safe since this is not in a multi-threaded context
         m_workGroups.erase(pItr);
-        m_workGroups.insert(m_workGroups.begin() + nextGroupIndex, group);
-        nextGroupIndex++;
+        m_workGroups.insert(m_workGroups.begin() + m_nextGroupIndex, group);
+        m_nextGroupIndex++;
 
         break;
       }
diff --git a/src/core/KernelInvocation.h b/src/core/KernelInvocation.h
index ef03c8e..13cd709 100644
--- a/src/core/KernelInvocation.h
+++ b/src/core/KernelInvocation.h
@@ -6,6 +6,8 @@
 // license terms please see the LICENSE file distributed with this
 // source code.
 
+#include <atomic>
+
 #include "common.h"
 
 namespace oclgrind
@@ -53,6 +55,7 @@ private:
   // Current execution state
   std::vector<Size3> m_workGroups;
   std::list<WorkGroup*> m_runningGroups;
+  std::atomic<unsigned> m_nextGroupIndex;
 
   // Worker threads
   void runWorker(int id);
diff --git a/src/runtime/async_queue.cpp b/src/runtime/async_queue.cpp
index 9023899..9883929 100644
--- a/src/runtime/async_queue.cpp
+++ b/src/runtime/async_queue.cpp
@@ -12,6 +12,7 @@
 #include <iostream>
 #include <list>
 #include <map>
+#include <mutex>
 
 #include "core/Kernel.h"
 #include "core/Queue.h"
@@ -25,6 +26,9 @@ static map<Command*, cl_kernel> kernelMap;
 static map<Command*, cl_event> eventMap;
 static map<Command*, list<cl_event>> waitListMap;
 
+// Guards the maps, which are shared by the queues of all host threads
+static mutex retainMutex;
+
 void asyncEnqueue(cl_command_queue queue, cl_command_type type, Command* cmd,
                   cl_uint numEvents, const cl_event* waitList,
                   cl_event* eventOut)
@@ -33,9 +37,13 @@ void asyncEnqueue(cl_command_queue queue, cl_command_type type, Command* cmd,
   for (unsigned i = 0; i < numEvents; i++)
   {
     cmd->waitList.push_back(waitList[i]->event);
-    waitListMap[cmd].push_back(waitList[i]);
     clRetainEvent(waitList[i]);
   }
+  if (numEvents)
+  {
+    lock_guard<mutex> lock(retainMutex);
+    waitListMap[cmd].assign(waitList, waitList + numEvents);
+  }
 
   // Enqueue command
   Event* event = queue->queue->enqueue(cmd);
@@ -51,7 +59,10 @@ void asyncEnqueue(cl_command_queue queue, cl_command_type type, Command* cmd,
   clRetainContext(_event->context);
 
   // Add event to map
-  eventMap[cmd] = _event;
+  {
+    lock_guard<mutex> lock(retainMutex);
+    eventMap[cmd] = _event;
+  }
 
   // Pass event as output and retain (if required)
   if (eventOut)
@@ -65,16 +76,19 @@ void asyncQueueRetain(Command* cmd, cl_mem mem)
 {
   // Retain object and add to map
   clRetainMemObject(mem);
+  lock_guard<mutex> lock(retainMutex);
   memObjectMap[cmd].push_back(mem);
 }
 
 void asyncQueueRetain(Command* cmd, cl_kernel kernel)
 {
-  assert(kernelMap.find(cmd) == kernelMap.end());
-
   // Retain kernel and add to map
   clRetainKernel(kernel);
-  kernelMap[cmd] = kernel;
+  {
+    lock_guard<mutex> lock(retainMutex);
+    assert(kernelMap.find(cmd) == kernelMap.end());
+    kernelMap[cmd] = kernel;
+  }
 
   // Retain memory objects arguments
   map<cl_uint, cl_mem>::const_iterator itr;
@@ -104,43 +118,47 @@ void performEventCallbacks(cl_event event)
   }
 }
 
+// Remove and return what a map holds for a command
+template <class T> static T take(map<Command*, T>& retained, Command* cmd)
+{
+  lock_guard<mutex> lock(retainMutex);
+  T result = T();
+  auto itr = retained.find(cmd);
+  if (itr != retained.end())
+  {
+    result = itr->second;
+    retained.erase(itr);
+  }
+  return result;
+}
+
 void asyncQueueRelease(Command* cmd)
 {
   // Release memory objects
-  if (memObjectMap.find(cmd) != memObjectMap.end())
+  for (cl_mem mem : take(memObjectMap, cmd))
   {
-    list<cl_mem> memObjects = memObjectMap[cmd];
-    while (!memObjects.empty())
-    {
-      clReleaseMemObject(memObjects.front());
-      memObjects.pop_front();
-    }
-    memObjectMap.erase(cmd);
+    clReleaseMemObject(mem);
   }
 
   // Release kernel
   if (cmd->type == Command::KERNEL)
   {
-    assert(kernelMap.find(cmd) != kernelMap.end());
-    clReleaseKernel(kernelMap[cmd]);
-    kernelMap.erase(cmd);
+    cl_kernel kernel = take(kernelMap, cmd);
+    assert(kernel);
+    clReleaseKernel(kernel);
     delete ((KernelCommand*)cmd)->kernel;
   }
 
   // Remove event from map
-  cl_event event = eventMap[cmd];
-  eventMap.erase(cmd);
+  cl_event event = take(eventMap, cmd);
 
   // Perform callbacks
   performEventCallbacks(event);
 
   // Release events
-  list<cl_event>::iterator waitItr;
-  for (waitItr = waitListMap[cmd].begin(); waitItr != waitListMap[cmd].end();
-       waitItr++)
+  for (cl_event waitEvent : take(waitListMap, cmd))
   {
-    clReleaseEvent(*waitItr);
+    clReleaseEvent(waitEvent);
   }
-  waitListMap.erase(cmd);
   clReleaseEvent(event);
 }
-- 
2.43.0


From c9afdb695dbcd9b9c75927754a28a0f42f684963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:59 +0000
Subject: [PATCH 44/82] fix: pass user data to context notification callbacks

---
 src/runtime/runtime.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 69e5ef5..41127ce 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -153,7 +153,7 @@ void notifyAPIError(cl_context context, cl_int err, const char* function,
   // Fire context callback if set
   if (context && context->notify)
   {
-    context->notify(error.c_str(), context->data, 0, NULL);
+    context->notify(error.c_str(), NULL, 0, context->data);
   }
 }
 
-- 
2.43.0


From e97d480a670251390d6d426f929815832e38f051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:01 +0000
Subject: [PATCH 45/82] fix: oclgrind-kernel reads the last line of a
 simulation file without a newline and checks the rest of the line for
 unexpected tokens

---
 src/kernel/Simulation.cpp | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/kernel/Simulation.cpp b/src/kernel/Simulation.cpp
index 1c462da..b5f9435 100644
--- a/src/kernel/Simulation.cpp
+++ b/src/kernel/Simulation.cpp
@@ -73,7 +73,7 @@ template <typename T> void Simulation::dumpArgument(DumpArg& arg)
 
 template <typename T> void Simulation::get(T& result)
 {
-  do
+  while (true)
   {
     // Check if line buffer has content
     streampos pos = m_lineBuffer.tellg();
@@ -97,7 +97,10 @@ template <typename T> void Simulation::get(T& result)
 
     // Get next line
     string line;
-    getline(m_simfile, line);
+    if (!getline(m_simfile, line))
+    {
+      break;
+    }
     m_lineNumber++;
 
     // Remove comments
@@ -110,7 +113,7 @@ template <typename T> void Simulation::get(T& result)
     // Update line buffer
     m_lineBuffer.clear();
     m_lineBuffer.str(line);
-  } while (m_simfile.good());
+  }
 
   // Couldn't read data from file, throw exception
   throw m_simfile.eof() ? ifstream::eofbit : ifstream::failbit;
@@ -217,9 +220,22 @@ bool Simulation::load(const char* filename)
     }
 
     // Make sure there is no more input
+    PARSING("end of file");
     string next;
-    m_simfile >> next;
-    if (m_simfile.good() || !m_simfile.eof())
+    bool end = false;
+    try
+    {
+      get(next);
+    }
+    catch (ifstream::iostate e)
+    {
+      if (e != ifstream::eofbit)
+      {
+        throw;
+      }
+      end = true;
+    }
+    if (!end)
     {
       cerr << "Unexpected token '" << next << "' (expected EOF)" << endl;
       return false;
-- 
2.43.0


From 48e82455532a2829939c8e74098c23366c60d04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:01 +0000
Subject: [PATCH 46/82] fix: oclgrind-kernel reports a program file that cannot
 be read

---
 src/kernel/Simulation.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/kernel/Simulation.cpp b/src/kernel/Simulation.cpp
index b5f9435..21c11b2 100644
--- a/src/kernel/Simulation.cpp
+++ b/src/kernel/Simulation.cpp
@@ -161,6 +161,11 @@ bool Simulation::load(const char* filename)
     // Check for LLVM bitcode magic numbers
     char magic[2] = {0, 0};
     progFile.read(magic, 2);
+    if (progFile.bad())
+    {
+      cerr << "Unable to read " << progFileName << endl;
+      return false;
+    }
     if (magic[0] == 0x42 && magic[1] == 0x43)
     {
       // Load bitcode
@@ -175,13 +180,25 @@ bool Simulation::load(const char* filename)
     else
     {
       // Get size of file
+      progFile.clear();
       progFile.seekg(0, ios_base::end);
-      size_t sz = progFile.tellg();
+      streamoff sz = progFile.tellg();
       progFile.seekg(0, ios_base::beg);
+      if (!progFile.good() || sz < 0)
+      {
+        cerr << "Unable to read " << progFileName << endl;
+        return false;
+      }
 
       // Load source
       char* data = new char[sz + 1];
-      progFile.read(data, sz + 1);
+      progFile.read(data, sz);
+      if (progFile.gcount() != sz)
+      {
+        cerr << "Unable to read " << progFileName << endl;
+        delete[] data;
+        return false;
+      }
       progFile.close();
       data[sz] = '\0';
       m_program = new Program(m_context, data);
-- 
2.43.0


From 0676d717c9d731e52c1c3bb77d2b089595690c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:01 +0000
Subject: [PATCH 47/82] fix: oclgrind-kernel argument headers: diagnostic for
 unknown tokens, several headers on one line

---
 src/kernel/Simulation.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/kernel/Simulation.cpp b/src/kernel/Simulation.cpp
index 21c11b2..248bff1 100644
--- a/src/kernel/Simulation.cpp
+++ b/src/kernel/Simulation.cpp
@@ -264,6 +264,12 @@ bool Simulation::load(const char* filename)
          << endl;
     return false;
   }
+  catch (const string& err)
+  {
+    cerr << "Line " << m_lineNumber << ": " << err << " (" << m_parsing << ")"
+         << endl;
+    return false;
+  }
   catch (ifstream::iostate e)
   {
     if (e == ifstream::eofbit)
@@ -324,7 +330,7 @@ void Simulation::parseArgument(size_t index)
   streampos startpos = m_lineBuffer.tellg();
   string headerStr;
   getline(m_lineBuffer, headerStr);
-  size_t end = headerStr.find_last_of('>');
+  size_t end = headerStr.find_first_of('>');
   if (end == string::npos)
   {
     throw "Missing '>' at end of argument header";
@@ -463,7 +469,7 @@ void Simulation::parseArgument(size_t index)
       string err = "Unrecognised header token '";
       err += token;
       err += "'";
-      throw err.c_str();
+      throw err;
     }
   }
 
-- 
2.43.0


From 12450d8a5051a072f449ae28078f8ac900f4fe44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:01 +0000
Subject: [PATCH 48/82] fix: oclgrind-kernel rejects empty work-groups and
 arguments of a wrong or impossible size

---
 src/kernel/Simulation.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/kernel/Simulation.cpp b/src/kernel/Simulation.cpp
index 248bff1..0c41124 100644
--- a/src/kernel/Simulation.cpp
+++ b/src/kernel/Simulation.cpp
@@ -148,6 +148,10 @@ bool Simulation::load(const char* filename)
     get(m_wgsize.x);
     get(m_wgsize.y);
     get(m_wgsize.z);
+    if (!m_wgsize.x || !m_wgsize.y || !m_wgsize.z)
+    {
+      throw "Work-group size must not be zero";
+    }
 
     // Open program file
     ifstream progFile;
@@ -270,6 +274,12 @@ bool Simulation::load(const char* filename)
          << endl;
     return false;
   }
+  catch (const bad_alloc&)
+  {
+    cerr << "Line " << m_lineNumber << ": Out of memory (" << m_parsing << ")"
+         << endl;
+    return false;
+  }
   catch (ifstream::iostate e)
   {
     if (e == ifstream::eofbit)
@@ -522,6 +532,12 @@ void Simulation::parseArgument(size_t index)
     throw "Initialiser type must exactly divide argument size";
   }
 
+  // Ensure values passed directly have the size that the kernel expects
+  if (addrSpace == CL_KERNEL_ARG_ADDRESS_PRIVATE && size != argSize)
+  {
+    throw "Size doesn't match size of kernel argument";
+  }
+
   // Ensure 'dump' only used with non-null buffers
   if (dump)
   {
-- 
2.43.0


From da1d19a58ef8cf7c8e6bf51ca717fa43d596a741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:52 +0000
Subject: [PATCH 49/82] fix: linear filtering with CLK_ADDRESS_NONE reads the
 wrong pixels

The two pixels that are interpolated are floor(u - 0.5) and the next one, as
for the other addressing modes. In images of fewer than three dimensions the
unused coordinates were 1, out of range, so the border colour was returned.
---
 src/core/WorkItemBuiltins.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 63c9814..583a5bd 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -920,8 +920,8 @@ class WorkItemBuiltins
     switch (sampler & CLK_ADDRESS_MASK)
     {
     case CLK_ADDRESS_NONE:
-      *c0 = floor(u);
-      *c1 = floor(u) + 1;
+      *c0 = floor(u - 0.5f);
+      *c1 = floor(u - 0.5f) + 1;
       return u;
     case CLK_ADDRESS_CLAMP_TO_EDGE:
       *c0 = _clamp_<int>(floorf(u - 0.5f), 0, size - 1);
-- 
2.43.0


From 13c8e35d34b6f0656b151d7e8dbcd46a6221fdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:44 +0000
Subject: [PATCH 50/82] fix: messages about code in an included file show a
 line of the main source

---
 src/core/Context.cpp | 6 ++++--
 src/core/Program.cpp | 5 +++++
 src/core/Program.h   | 1 +
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/core/Context.cpp b/src/core/Context.cpp
index 485c258..99fc095 100644
--- a/src/core/Context.cpp
+++ b/src/core/Context.cpp
@@ -484,9 +484,11 @@ Context::Message::operator<<(const llvm::Instruction* instruction)
             << ")"
             << " of " << filename.str() << ":" << endl;
 
-      // Get source line
+      // Get source line (not available for included files)
       const Program* program = m_kernelInvocation->getKernel()->getProgram();
-      const char* line = program->getSourceLine(lineNumber);
+      const char* line = NULL;
+      if (program->isSourceFile(filename.str()))
+        line = program->getSourceLine(lineNumber);
       if (line)
       {
         while (isspace(line[0]))
diff --git a/src/core/Program.cpp b/src/core/Program.cpp
index 63aed0a..18fa54b 100644
--- a/src/core/Program.cpp
+++ b/src/core/Program.cpp
@@ -908,6 +908,11 @@ const char* Program::getSourceLine(size_t lineNumber) const
   return m_sourceLines[lineNumber - 1].c_str();
 }
 
+bool Program::isSourceFile(const string& filename) const
+{
+  return filename == REMAP_INPUT;
+}
+
 size_t Program::getNumSourceLines() const
 {
   return m_sourceLines.size();
diff --git a/src/core/Program.h b/src/core/Program.h
index 0270c74..e949d16 100644
--- a/src/core/Program.h
+++ b/src/core/Program.h
@@ -66,6 +66,7 @@ public:
   size_t getNumSourceLines() const;
   const TypedValue& getProgramScopeVar(const llvm::Value* var) const;
   size_t getTotalProgramScopeVarSize() const;
+  bool isSourceFile(const std::string& filename) const;
   unsigned long getUID() const;
 
 private:
-- 
2.43.0


From d18a937fca4f41b46c2c559c3dc0539cd163666e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:57 +0000
Subject: [PATCH 51/82] fix: uninitialised-data checker crashes on shuffles
 with undefined mask elements

The mask value of an undefined element is -1 in every supported version of
LLVM; with those before 21 it was compared against something else and then
used as an index into the shadow of the operand.
---
 src/plugins/Uninitialized.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 39de5fc..891054d 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -1649,11 +1649,7 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
     for (unsigned i = 0; i < newShadow.num; i++)
     {
       int index = shuffleInst->getMaskValue(i);
-#if LLVM_VERSION >= 210
-      if (index == llvm::PoisonMaskElem)
-#else
-      if (index == llvm::Value::UndefValueVal)
-#endif
+      if (index < 0)
       {
         // Undef value are poisoned
         memcpy(newShadow.data + i * newShadow.size, pv.data, newShadow.size);
-- 
2.43.0


From 6b2ed387a239bbc799ddb127190e3617726db872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:41 +0000
Subject: [PATCH 52/82] fix: uninitialised-data checker loses track of which
 bytes of a buffer are defined

Writing or mapping part of a buffer replaced its shadow by one of the size of
that part, so that later accesses to the rest (or, once the beginning had been
written, to all of it) went wrong; a new buffer inherited the shadow of a
released one with the same address; memory given with CL_MEM_USE_HOST_PTR
counted as undefined; and using the context from a second host thread
dereferenced that thread's missing memory pool.
---
 src/plugins/Uninitialized.cpp | 47 ++++++++++++++++++++++-------------
 src/plugins/Uninitialized.h   |  7 +++---
 2 files changed, 34 insertions(+), 20 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 891054d..476ecf1 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -27,14 +27,6 @@
 using namespace oclgrind;
 using namespace std;
 
-// void Uninitialized::memoryAllocated(const Memory *memory, size_t address,
-//                                 size_t size, cl_mem_flags flags,
-//                                 const uint8_t *initData)
-//{
-//    cout << "Memory: " << memory << ", address: " << hex << address << dec <<
-//    ", size: " << size << endl;
-//}
-
 // Multiple mutexes to mitigate risk of unnecessary synchronisation in atomics
 #define NUM_ATOMIC_MUTEXES 64 // Must be power of two
 static std::mutex atomicShadowMutex[NUM_ATOMIC_MUTEXES];
@@ -47,13 +39,9 @@ THREAD_LOCAL ShadowContext::WorkSpace ShadowContext::m_workSpace = {NULL, NULL,
 Uninitialized::Uninitialized(const Context* context)
     : Plugin(context), shadowContext(sizeof(size_t) == 8 ? 32 : 16)
 {
-  shadowContext.createMemoryPool();
 }
 
-Uninitialized::~Uninitialized()
-{
-  shadowContext.destroyMemoryPool();
-}
+Uninitialized::~Uninitialized() {}
 
 void Uninitialized::allocAndStoreShadowMemory(unsigned addrSpace,
                                               size_t address, TypedValue SM,
@@ -1013,8 +1001,7 @@ void Uninitialized::hostMemoryStore(const Memory* memory, size_t address,
 {
   if (memory->getAddressSpace() == AddrSpaceGlobal)
   {
-    TypedValue v = ShadowContext::getCleanValue(size);
-    allocAndStoreShadowMemory(AddrSpaceGlobal, address, v);
+    shadowContext.getGlobalMemory()->fill(address, 0, size);
   }
 }
 
@@ -1787,6 +1774,9 @@ void Uninitialized::kernelBegin(const KernelInvocation* kernelInvocation)
 {
   const Kernel* kernel = kernelInvocation->getKernel();
 
+  // Kernels may be launched from any host thread
+  shadowContext.createMemoryPool();
+
   // Initialise kernel arguments and global variables
   for (auto value = kernel->values_begin(); value != kernel->values_end();
        value++)
@@ -1893,6 +1883,8 @@ void Uninitialized::kernelBegin(const KernelInvocation* kernelInvocation)
       m_deferredInit.push_back(*value);
     }
   }
+
+  shadowContext.destroyMemoryPool();
 }
 
 void Uninitialized::kernelEnd(const KernelInvocation* kernelInvocation)
@@ -1967,13 +1959,25 @@ void Uninitialized::logUninitializedWrite(unsigned int addrSpace,
   msg.send();
 }
 
+void Uninitialized::memoryAllocated(const Memory* memory, size_t address,
+                                    size_t size, cl_mem_flags flags,
+                                    const uint8_t* initData)
+{
+  if (memory->getAddressSpace() == AddrSpaceGlobal)
+  {
+    // This replaces the shadow of a released buffer with the same address
+    ShadowMemory* shadowMemory = shadowContext.getGlobalMemory();
+    shadowMemory->allocate(address, size);
+    shadowMemory->fill(address, initData ? 0 : 0xff, size);
+  }
+}
+
 void Uninitialized::memoryMap(const Memory* memory, size_t address,
                               size_t offset, size_t size, cl_map_flags flags)
 {
   if (!(flags & CL_MAP_READ))
   {
-    allocAndStoreShadowMemory(memory->getAddressSpace(), address + offset,
-                              ShadowContext::getCleanValue(size));
+    shadowContext.getGlobalMemory()->fill(address + offset, 0, size);
   }
 }
 
@@ -2440,6 +2444,15 @@ void ShadowMemory::dump() const
   cout << "=======================" << endl;
 }
 
+void ShadowMemory::fill(size_t address, unsigned char value, size_t size)
+{
+  if (isAddressValid(address, size))
+  {
+    memset(m_map.at(extractBuffer(address))->data + extractOffset(address),
+           value, size);
+  }
+}
+
 size_t ShadowMemory::extractBuffer(size_t address) const
 {
   return (address >> m_numBitsAddress);
diff --git a/src/plugins/Uninitialized.h b/src/plugins/Uninitialized.h
index 07ccb47..d924366 100644
--- a/src/plugins/Uninitialized.h
+++ b/src/plugins/Uninitialized.h
@@ -116,6 +116,7 @@ public:
 
   void allocate(size_t address, size_t size);
   void dump() const;
+  void fill(size_t address, unsigned char value, size_t size);
   void* getPointer(size_t address) const;
   bool isAddressValid(size_t address, size_t size = 1) const;
   void load(unsigned char* dst, size_t address, size_t size = 1) const;
@@ -272,15 +273,15 @@ public:
                                    const TypedValue& result) override;
   virtual void kernelBegin(const KernelInvocation* kernelInvocation) override;
   virtual void kernelEnd(const KernelInvocation* kernelInvocation) override;
+  virtual void memoryAllocated(const Memory* memory, size_t address,
+                               size_t size, cl_mem_flags flags,
+                               const uint8_t* initData) override;
   virtual void memoryMap(const Memory* memory, size_t address, size_t offset,
                          size_t size, cl_map_flags flags) override;
   virtual void workItemBegin(const WorkItem* workItem) override;
   virtual void workItemComplete(const WorkItem* workItem) override;
   virtual void workGroupBegin(const WorkGroup* workGroup) override;
   virtual void workGroupComplete(const WorkGroup* workGroup) override;
-  // virtual void memoryAllocated(const Memory *memory, size_t address,
-  //                             size_t size, cl_mem_flags flags,
-  //                             const uint8_t *initData);
 private:
   std::list<std::pair<const llvm::Value*, TypedValue>> m_deferredInit;
   std::list<std::pair<const llvm::Value*, TypedValue>> m_deferredInitGroup;
-- 
2.43.0


From 9692a64cd0153b042f264d534c03d0c2c54c9647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:02 +0000
Subject: [PATCH 53/82] fix: uninitialised-data checker aborts on async copies
 of other types than int, and strides both sides of strided ones

---
 src/plugins/Uninitialized.cpp | 49 +++++++++++++++++++++++++++++------
 src/plugins/Uninitialized.h   |  3 ++-
 2 files changed, 43 insertions(+), 9 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 476ecf1..384aa06 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -90,14 +90,14 @@ void Uninitialized::copyShadowMemory(unsigned dstAddrSpace, size_t dst,
                                      unsigned size, const WorkItem* workItem,
                                      const WorkGroup* workGroup, bool unchecked)
 {
-  copyShadowMemoryStrided(dstAddrSpace, dst, srcAddrSpace, src, 1, 1, size,
-                          workItem, workGroup, unchecked);
+  copyShadowMemoryStrided(dstAddrSpace, dst, srcAddrSpace, src, 1, 1, 1,
+                          size, workItem, workGroup, unchecked);
 }
 
 void Uninitialized::copyShadowMemoryStrided(
   unsigned dstAddrSpace, size_t dst, unsigned srcAddrSpace, size_t src,
-  size_t num, size_t stride, unsigned size, const WorkItem* workItem,
-  const WorkGroup* workGroup, bool unchecked)
+  size_t num, size_t dstStride, size_t srcStride, unsigned size,
+  const WorkItem* workItem, const WorkGroup* workGroup, bool unchecked)
 {
   TypedValue v = {size, 1, new unsigned char[size]};
 
@@ -105,8 +105,8 @@ void Uninitialized::copyShadowMemoryStrided(
   {
     loadShadowMemory(srcAddrSpace, src, v, workItem, workGroup);
     storeShadowMemory(dstAddrSpace, dst, v, workItem, workGroup, unchecked);
-    src += stride * size;
-    dst += stride * size;
+    src += srcStride * size;
+    dst += dstStride * size;
   }
 
   delete[] v.data;
@@ -189,16 +189,43 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
 
     // Get size of copy
     unsigned elemSize;
+    unsigned vecwidth = 1;
     char ptrtype = paramTypes[6];
+    if (ptrtype == 'D')
+    {
+      char* typestr;
+      vecwidth = strtol(paramTypes.c_str() + 8, &typestr, 10);
+      if (vecwidth == 3)
+      {
+        vecwidth = 4;
+      }
+      ptrtype = typestr[1];
+    }
     switch (ptrtype)
     {
+    case 'c':
+    case 'h':
+      elemSize = 1;
+      break;
+    case 's':
+    case 't':
+      elemSize = 2;
+      break;
+    case 'f':
     case 'i':
+    case 'j':
       elemSize = 4;
       break;
+    case 'd':
+    case 'l':
+    case 'm':
+      elemSize = 8;
+      break;
     default:
       FATAL_ERROR("Unsupported argument type: %c", ptrtype);
       break;
     }
+    elemSize *= vecwidth;
 
     const llvm::Value* numOp = CI->getArgOperand(arg++);
     uint64_t num = workItem->getOperand(numOp).getUInt();
@@ -231,17 +258,23 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
     AddressSpace dstAddrSpace = AddrSpaceLocal;
     AddressSpace srcAddrSpace = AddrSpaceLocal;
 
+    // The stride is that of the global memory
+    size_t dstStride = 1;
+    size_t srcStride = 1;
+
     if (dstOp->getType()->getPointerAddressSpace() == AddrSpaceLocal)
     {
       srcAddrSpace = AddrSpaceGlobal;
+      srcStride = stride;
     }
     else
     {
       dstAddrSpace = AddrSpaceGlobal;
+      dstStride = stride;
     }
 
-    copyShadowMemoryStrided(dstAddrSpace, dst, srcAddrSpace, src, num, stride,
-                            elemSize, workItem);
+    copyShadowMemoryStrided(dstAddrSpace, dst, srcAddrSpace, src, num,
+                            dstStride, srcStride, elemSize, workItem);
     shadowValues->setValue(CI, eventShadow);
 
     // Check shadow of src address
diff --git a/src/plugins/Uninitialized.h b/src/plugins/Uninitialized.h
index d924366..ec3ffb4 100644
--- a/src/plugins/Uninitialized.h
+++ b/src/plugins/Uninitialized.h
@@ -301,7 +301,8 @@ private:
                         bool unchecked = false);
   void copyShadowMemoryStrided(unsigned dstAddrSpace, size_t dst,
                                unsigned srcAddrSpace, size_t src, size_t num,
-                               size_t stride, unsigned size,
+                               size_t dstStride, size_t srcStride,
+                               unsigned size,
                                const WorkItem* workItem = NULL,
                                const WorkGroup* workGroup = NULL,
                                bool unchecked = false);
-- 
2.43.0


From 3ec17bf23548d95b1699bd9fe4cf33e2b37f85a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:15 +0000
Subject: [PATCH 54/82] fix: uninitialised-data checker mishandles builtins
 that return a second value by pointer

fract, modf, sincos, frexp, lgamma_r and remquo ended in a fatal error if the
pointer was to private memory, and set the shadow of the first element of a
vector only; for the integer results, the shadow had the size of the
floating-point type.
---
 src/plugins/Uninitialized.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 384aa06..15b2a9f 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -416,10 +416,11 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
         newElemShadow = ShadowContext::getCleanValue(result.size);
       }
 
-      memcpy(newShadow.data, newElemShadow.data, result.size);
+      memcpy(newShadow.data + i * result.size, newElemShadow.data,
+             result.size);
     }
 
-    storeShadowMemory(addrSpace, iptr, newShadow);
+    storeShadowMemory(addrSpace, iptr, newShadow, workItem);
     shadowValues->setValue(CI, newShadow);
 
     // Check shadow of address
@@ -442,8 +443,8 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
     TypedValue newElemShadow;
     TypedValue newElemIntShadow;
     TypedValue newShadow = shadowContext.getMemoryPool()->clone(result);
-    TypedValue newIntShadow = {newShadow.size, newShadow.num,
-                               shadowContext.getMemoryPool()->alloc(4)};
+    TypedValue newIntShadow = {
+      4, newShadow.num, shadowContext.getMemoryPool()->alloc(4 * newShadow.num)};
 
     for (unsigned i = 0; i < result.num; ++i)
     {
@@ -458,11 +459,12 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
         newElemIntShadow = ShadowContext::getCleanValue(4);
       }
 
-      memcpy(newIntShadow.data, newElemIntShadow.data, 4);
-      memcpy(newShadow.data, newElemShadow.data, result.size);
+      memcpy(newIntShadow.data + i * 4, newElemIntShadow.data, 4);
+      memcpy(newShadow.data + i * result.size, newElemShadow.data,
+             result.size);
     }
 
-    storeShadowMemory(addrSpace, iptr, newIntShadow);
+    storeShadowMemory(addrSpace, iptr, newIntShadow, workItem);
     shadowValues->setValue(CI, newShadow);
 
     // Check shadow of address
@@ -499,8 +501,10 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
         newElemShadow = ShadowContext::getCleanValue(result.size);
       }
 
-      storeShadowMemory(addrSpace, iptr + i * 4, newElemShadow);
-      memcpy(newShadow.data, newElemShadow.data, result.size);
+      TypedValue newIntShadow = {4, 1, newElemShadow.data};
+      storeShadowMemory(addrSpace, iptr + i * 4, newIntShadow, workItem);
+      memcpy(newShadow.data + i * result.size, newElemShadow.data,
+             result.size);
     }
 
     shadowValues->setValue(CI, newShadow);
-- 
2.43.0


From 13f766e39580214c44000771713c3588fdaac011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:15 +0000
Subject: [PATCH 55/82] fix: uninitialised-data checker looks up the wrong
 elements for shuffle

---
 src/plugins/Uninitialized.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 15b2a9f..8ede558 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -536,7 +536,7 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
       }
       else
       {
-        size_t srcOffset = (mask.getUInt(i) % shadow.size) * shadow.size;
+        size_t srcOffset = (mask.getUInt(i) % shadow.num) * shadow.size;
         memcpy(newShadow.data + i * newShadow.size, shadow.data + srcOffset,
                newShadow.size);
       }
-- 
2.43.0


From 4b530103fc69c7a96037300b7bca60e895632b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:52 +0000
Subject: [PATCH 56/82] fix: stores of vectors put together from scalars write
 undefined elements

An insertelement chain was split into a store of the constant it starts from,
elements yet undefined included, and one store per element: optimised kernels
were reported for writing uninitialised data wherever they store such a
vector, and the elements were written twice.
---
 src/core/Program.cpp | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/src/core/Program.cpp b/src/core/Program.cpp
index 18fa54b..60401fa 100644
--- a/src/core/Program.cpp
+++ b/src/core/Program.cpp
@@ -1090,7 +1090,8 @@ void Program::scalarizeAggregateStore(llvm::StoreInst* store)
     scalarStore->setDebugLoc(store->getDebugLoc());
     scalarStore->insertAfter(scalarPtr);
 
-    if (!vectorIsDest)
+    // There is nothing else to store if all other elements are undefined
+    if (!vectorIsDest && !llvm::isa<llvm::UndefValue>(vector))
     {
       // Replace value in store with the input to the insertelement instruction
       llvm::StoreInst* _store =
@@ -1236,6 +1237,40 @@ void Program::scalarizeAggregateStore(llvm::StoreInst* store)
     store->eraseFromParent();
     pruneDeadCode(shuffle);
   }
+  else if (auto cnst = llvm::dyn_cast<llvm::ConstantVector>(storeValue))
+  {
+    // Get indices of elements that are defined
+    stack<unsigned> indices;
+    for (unsigned i = 0; i < cnst->getNumOperands(); i++)
+    {
+      if (!llvm::isa<llvm::UndefValue>(cnst->getOperand(i)))
+        indices.push(i);
+    }
+
+    // If every element is defined, leave store as is
+    if (indices.size() == cnst->getNumOperands())
+      return;
+
+    // Create a scalar store for each defined element
+    while (!indices.empty())
+    {
+      unsigned index = indices.top();
+      indices.pop();
+
+      llvm::GetElementPtrInst* scalarPtr = createScalarGEP(
+        vectorPtr, llvm::ConstantInt::getSigned(gepIndexType, index), store,
+        gepIndexType);
+
+      llvm::Value* value = cnst->getOperand(index);
+      llvm::StoreInst* scalarStore =
+        new llvm::StoreInst(value, scalarPtr, store->isVolatile(),
+                            llvm::Align(getTypeAlignment(value->getType())));
+      scalarStore->setDebugLoc(store->getDebugLoc());
+      scalarStore->insertAfter(scalarPtr);
+    }
+
+    store->eraseFromParent();
+  }
 }
 
 void Program::stripDebugIntrinsics()
-- 
2.43.0


From a90c55cf65a0131335250a27a7b8010d98703f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:52 +0000
Subject: [PATCH 57/82] fix: uninitialised-data checker taints the wrong lanes
 of shifts and vectors of booleans

One undefined shift amount of a vector made every lane undefined. Vectors of
booleans take one bit per element in memory and in bit casts, one byte
elsewhere; the checker read beyond the shadow of the operand.
---
 src/core/WorkItem.cpp         |  15 -----
 src/core/common.cpp           |  13 ++++
 src/core/common.h             |   6 ++
 src/plugins/Uninitialized.cpp | 123 ++++++++++++++++++++--------------
 4 files changed, 92 insertions(+), 65 deletions(-)

diff --git a/src/core/WorkItem.cpp b/src/core/WorkItem.cpp
index 44a9687..72d6df0 100644
--- a/src/core/WorkItem.cpp
+++ b/src/core/WorkItem.cpp
@@ -842,21 +842,6 @@ INSTRUCTION(ashr)
   }
 }
 
-// Copy the bits of a sequence of values that do not fill whole bytes.
-// Each value has the given number of bits and occupies 'stride' bits.
-static void copyBits(unsigned char* dest, unsigned destBits, unsigned destStride,
-                     const unsigned char* src, unsigned srcBits,
-                     unsigned srcStride, unsigned total)
-{
-  for (unsigned i = 0; i < total; i++)
-  {
-    const unsigned in = (i / srcBits) * srcStride + i % srcBits;
-    const unsigned out = (i / destBits) * destStride + i % destBits;
-    if (src[in / 8] >> (in % 8) & 1)
-      dest[out / 8] |= 1 << (out % 8);
-  }
-}
-
 INSTRUCTION(bitcast)
 {
   TypedValue operand = getOperand(instruction->getOperand(0));
diff --git a/src/core/common.cpp b/src/core/common.cpp
index b8e782c..10acc6e 100644
--- a/src/core/common.cpp
+++ b/src/core/common.cpp
@@ -751,6 +751,19 @@ bool isConstantOperand(const llvm::Value* operand)
           id <= llvm::Value::ConstantLastVal);
 }
 
+void copyBits(unsigned char* dest, unsigned destBits, unsigned destStride,
+              const unsigned char* src, unsigned srcBits, unsigned srcStride,
+              unsigned total)
+{
+  for (unsigned i = 0; i < total; i++)
+  {
+    const unsigned in = (i / srcBits) * srcStride + i % srcBits;
+    const unsigned out = (i / destBits) * destStride + i % destBits;
+    if (src[in / 8] >> (in % 8) & 1)
+      dest[out / 8] |= 1 << (out % 8);
+  }
+}
+
 bool isVector3(const llvm::Value* value)
 {
   auto vecType = llvm::dyn_cast<llvm::FixedVectorType>(value->getType());
diff --git a/src/core/common.h b/src/core/common.h
index 40de694..70ebbc5 100644
--- a/src/core/common.h
+++ b/src/core/common.h
@@ -192,6 +192,12 @@ std::pair<unsigned, unsigned> getValueSize(const llvm::Value* value);
 // Returns true if the operand is a constant value
 bool isConstantOperand(const llvm::Value* operand);
 
+// Copy the bits of a sequence of values that do not fill whole bytes.
+// Each value has the given number of bits and occupies 'stride' bits.
+void copyBits(unsigned char* dest, unsigned destBits, unsigned destStride,
+              const unsigned char* src, unsigned srcBits, unsigned srcStride,
+              unsigned total);
+
 // Returns true if the value is a 3-element vector
 bool isVector3(const llvm::Value* value);
 
diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 8ede558..c4f36c6 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -1087,26 +1087,22 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
     TypedValue S1 =
       shadowContext.getValue(workItem, instruction->getOperand(1));
 
-    if (!ShadowContext::isCleanValue(S1))
-    {
-      shadowValues->setValue(instruction,
-                             ShadowContext::getPoisonedValue(instruction));
-    }
-    else
-    {
-      TypedValue newShadow = shadowContext.getMemoryPool()->clone(result);
-      TypedValue Shift = workItem->getOperand(instruction->getOperand(1));
-      uint64_t shiftMask =
-        (S0.num > 1 ? S0.size : max((size_t)S0.size, sizeof(uint32_t))) * 8 - 1;
+    TypedValue newShadow = shadowContext.getMemoryPool()->clone(result);
+    TypedValue Shift = workItem->getOperand(instruction->getOperand(1));
+    uint64_t shiftMask =
+      (S0.num > 1 ? S0.size : max((size_t)S0.size, sizeof(uint32_t))) * 8 - 1;
 
-      for (unsigned i = 0; i < S0.num; i++)
-      {
+    for (unsigned i = 0; i < S0.num; i++)
+    {
+      // An undefined shift amount poisons its own lane only
+      if (S1.getUInt(i))
+        newShadow.setUInt(-1, i);
+      else
         newShadow.setUInt(S0.getSInt(i) >> (Shift.getUInt(i) & shiftMask), i);
-      }
-
-      shadowValues->setValue(instruction, newShadow);
     }
 
+    shadowValues->setValue(instruction, newShadow);
+
     break;
   }
   case llvm::Instruction::BitCast:
@@ -1115,7 +1111,20 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
       shadowContext.getValue(workItem, instruction->getOperand(0));
     TypedValue newShadow = shadowContext.getMemoryPool()->clone(result);
 
-    memcpy(newShadow.data, shadow.data, newShadow.size * newShadow.num);
+    const unsigned from =
+      instruction->getOperand(0)->getType()->getScalarSizeInBits();
+    const unsigned to = instruction->getType()->getScalarSizeInBits();
+    if (from != to && (from % 8 || to % 8))
+    {
+      // Values that do not fill whole bytes (e.g. vectors of booleans)
+      memset(newShadow.data, 0, newShadow.size * newShadow.num);
+      copyBits(newShadow.data, to, newShadow.size * 8, shadow.data, from,
+               shadow.size * 8, from * shadow.num);
+    }
+    else
+    {
+      memcpy(newShadow.data, shadow.data, newShadow.size * newShadow.num);
+    }
     shadowValues->setValue(instruction, newShadow);
     break;
   }
@@ -1461,7 +1470,19 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
     unsigned addrSpace = loadInst->getPointerAddressSpace();
 
     TypedValue v = shadowContext.getMemoryPool()->clone(result);
-    loadShadowMemory(addrSpace, address, v, workItem);
+    const unsigned bits = loadInst->getType()->getScalarSizeInBits();
+    if (loadInst->getType()->isVectorTy() && bits % 8)
+    {
+      // Elements that do not fill whole bytes are packed in memory
+      TypedValue packed = ShadowContext::getCleanValue((bits * v.num + 7) / 8);
+      loadShadowMemory(addrSpace, address, packed, workItem);
+      memset(v.data, 0, v.size * v.num);
+      copyBits(v.data, bits, v.size * 8, packed.data, bits, bits, bits * v.num);
+    }
+    else
+    {
+      loadShadowMemory(addrSpace, address, v, workItem);
+    }
     shadowValues->setValue(instruction, v);
 
     // Check shadow of address
@@ -1484,26 +1505,22 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
     TypedValue S1 =
       shadowContext.getValue(workItem, instruction->getOperand(1));
 
-    if (!ShadowContext::isCleanValue(S1))
-    {
-      shadowValues->setValue(instruction,
-                             ShadowContext::getPoisonedValue(instruction));
-    }
-    else
-    {
-      TypedValue newShadow = shadowContext.getMemoryPool()->clone(result);
-      TypedValue Shift = workItem->getOperand(instruction->getOperand(1));
-      uint64_t shiftMask =
-        (S0.num > 1 ? S0.size : max((size_t)S0.size, sizeof(uint32_t))) * 8 - 1;
+    TypedValue newShadow = shadowContext.getMemoryPool()->clone(result);
+    TypedValue Shift = workItem->getOperand(instruction->getOperand(1));
+    uint64_t shiftMask =
+      (S0.num > 1 ? S0.size : max((size_t)S0.size, sizeof(uint32_t))) * 8 - 1;
 
-      for (unsigned i = 0; i < S0.num; i++)
-      {
+    for (unsigned i = 0; i < S0.num; i++)
+    {
+      // An undefined shift amount poisons its own lane only
+      if (S1.getUInt(i))
+        newShadow.setUInt(-1, i);
+      else
         newShadow.setUInt(S0.getUInt(i) >> (Shift.getUInt(i) & shiftMask), i);
-      }
-
-      shadowValues->setValue(instruction, newShadow);
     }
 
+    shadowValues->setValue(instruction, newShadow);
+
     break;
   }
   case llvm::Instruction::Mul:
@@ -1637,26 +1654,22 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
     TypedValue S1 =
       shadowContext.getValue(workItem, instruction->getOperand(1));
 
-    if (!ShadowContext::isCleanValue(S1))
-    {
-      shadowValues->setValue(instruction,
-                             ShadowContext::getPoisonedValue(instruction));
-    }
-    else
-    {
-      TypedValue newShadow = shadowContext.getMemoryPool()->clone(result);
-      TypedValue Shift = workItem->getOperand(instruction->getOperand(1));
-      uint64_t shiftMask =
-        (S0.num > 1 ? S0.size : max((size_t)S0.size, sizeof(uint32_t))) * 8 - 1;
+    TypedValue newShadow = shadowContext.getMemoryPool()->clone(result);
+    TypedValue Shift = workItem->getOperand(instruction->getOperand(1));
+    uint64_t shiftMask =
+      (S0.num > 1 ? S0.size : max((size_t)S0.size, sizeof(uint32_t))) * 8 - 1;
 
-      for (unsigned i = 0; i < S0.num; i++)
-      {
+    for (unsigned i = 0; i < S0.num; i++)
+    {
+      // An undefined shift amount poisons its own lane only
+      if (S1.getUInt(i))
+        newShadow.setUInt(-1, i);
+      else
         newShadow.setUInt(S0.getUInt(i) << (Shift.getUInt(i) & shiftMask), i);
-      }
-
-      shadowValues->setValue(instruction, newShadow);
     }
 
+    shadowValues->setValue(instruction, newShadow);
+
     break;
   }
   case llvm::Instruction::ShuffleVector:
@@ -1719,6 +1732,16 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
     TypedValue shadowVal = storeInst->isAtomic()
                              ? ShadowContext::getCleanValue(Val)
                              : shadowContext.getValue(workItem, Val);
+    const unsigned bits = Val->getType()->getScalarSizeInBits();
+    if (Val->getType()->isVectorTy() && bits % 8)
+    {
+      // Elements that do not fill whole bytes are packed in memory
+      TypedValue packed =
+        ShadowContext::getCleanValue((bits * shadowVal.num + 7) / 8);
+      copyBits(packed.data, bits, bits, shadowVal.data, bits,
+               shadowVal.size * 8, bits * shadowVal.num);
+      shadowVal = packed;
+    }
     storeShadowMemory(addrSpace, address, shadowVal, workItem);
 
     // Check shadow of address
-- 
2.43.0


From 9b5bd3728d3466d6ac40cbd55d773fbdb5174e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:30 +0000
Subject: [PATCH 58/82] fix: pruning dead vector code erases an instruction
 twice

An operand that only another operand uses is gone once that one has been
pruned. Operands with side effects are kept.
---
 src/core/Program.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/core/Program.cpp b/src/core/Program.cpp
index 60401fa..bb15ded 100644
--- a/src/core/Program.cpp
+++ b/src/core/Program.cpp
@@ -26,6 +26,7 @@
 #include "llvm/IR/LLVMContext.h"
 #include "llvm/IR/LegacyPassManager.h"
 #include "llvm/IR/Module.h"
+#include "llvm/IR/ValueHandle.h"
 #include "llvm/Linker/Linker.h"
 #include "llvm/Support/VirtualFileSystem.h"
 #include "llvm/Transforms/Utils/Cloning.h"
@@ -934,12 +935,13 @@ void Program::pruneDeadCode(llvm::Instruction* instruction)
   if (instruction->getNumUses() == 0)
   {
     // Get list of operands
-    set<llvm::Value*> operands;
+    // (pruning one of them may remove another one as well)
+    list<llvm::WeakTrackingVH> operands;
     {
       llvm::Instruction::op_iterator op;
       for (op = instruction->op_begin(); op != instruction->op_end(); op++)
       {
-        operands.insert(*op);
+        operands.push_back(llvm::WeakTrackingVH(*op));
       }
     }
 
@@ -947,10 +949,12 @@ void Program::pruneDeadCode(llvm::Instruction* instruction)
     instruction->eraseFromParent();
 
     // Prune operands
-    set<llvm::Value*>::iterator op;
+    list<llvm::WeakTrackingVH>::iterator op;
     for (op = operands.begin(); op != operands.end(); op++)
     {
-      if (auto inst = llvm::dyn_cast<llvm::Instruction>(*op))
+      llvm::Value* value = *op;
+      auto inst = llvm::dyn_cast_or_null<llvm::Instruction>(value);
+      if (inst && !inst->mayHaveSideEffects())
         pruneDeadCode(inst);
     }
   }
-- 
2.43.0


From b57677b124e7909128a71b09ee8dc642fe3ae4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:49 +0000
Subject: [PATCH 59/82] fix: uninitialised-data checker reads past the shadow
 of an image

The shadow of an image argument is the shadow of a pointer, not an Image:
reading members of an Image from it reads past the end of an 8 byte
allocation and reports uninitialised data at random.
---
 src/plugins/Uninitialized.cpp | 87 +++--------------------------------
 src/plugins/Uninitialized.h   |  4 --
 2 files changed, 7 insertions(+), 84 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index c4f36c6..9ccae85 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -842,7 +842,7 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
     // Has to be changed in combination with the write functions
     size_t address = image->address;
 
-    if (!ShadowContext::isCleanImage(shadowImage))
+    if (!ShadowContext::isCleanValue(shadowImage))
     {
       newShadow = ShadowContext::getPoisonedValue(result);
     }
@@ -854,7 +854,7 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
     shadowValues->setValue(CI, newShadow);
 
     // Check image
-    if (!ShadowContext::isCleanImageAddress(shadowImage))
+    if (!ShadowContext::isCleanValue(shadowImage))
     {
       logUninitializedAddress(AddrSpaceGlobal, address, false);
     }
@@ -875,7 +875,7 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
     size_t address = image->address;
 
     // Check image
-    if (!ShadowContext::isCleanImageAddress(shadowImage))
+    if (!ShadowContext::isCleanValue(shadowImage))
     {
       logUninitializedAddress(AddrSpaceGlobal, address);
     }
@@ -886,46 +886,11 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
   {
     TypedValue shadowImage =
       shadowContext.getValue(workItem, CI->getArgOperand(0));
-    TypedValue newShadow = {
-      result.size, result.num,
-      shadowContext.getMemoryPool()->alloc(result.size * result.num)};
 
-    if (name == "get_image_array_size")
-    {
-      newShadow.setUInt(((Image*)shadowImage.data)->desc.image_array_size);
-    }
-    else if (name == "get_image_dim")
-    {
-      newShadow.setUInt(((Image*)shadowImage.data)->desc.image_width, 0);
-      newShadow.setUInt(((Image*)shadowImage.data)->desc.image_height, 1);
-
-      if (newShadow.num > 2)
-      {
-        newShadow.setUInt(((Image*)shadowImage.data)->desc.image_depth, 2);
-        newShadow.setUInt(0, 3);
-      }
-    }
-    else if (name == "get_image_depth")
-    {
-      newShadow.setUInt(((Image*)shadowImage.data)->desc.image_depth);
-    }
-    else if (name == "get_image_height")
-    {
-      newShadow.setUInt(((Image*)shadowImage.data)->desc.image_height);
-    }
-    else if (name == "get_image_width")
-    {
-      newShadow.setUInt(((Image*)shadowImage.data)->desc.image_width);
-    }
-    else if (name == "get_image_channel_order")
-    {
-      newShadow.setUInt(((Image*)shadowImage.data)->format.image_channel_order);
-    }
-    else if (name == "get_image_channel_data_type")
-    {
-      newShadow.setUInt(
-        ((Image*)shadowImage.data)->format.image_channel_data_type);
-    }
+    // The properties of an image object are always initialized
+    TypedValue newShadow = ShadowContext::isCleanValue(shadowImage)
+                             ? ShadowContext::getCleanValue(result)
+                             : ShadowContext::getPoisonedValue(result);
 
     shadowValues->setValue(CI, newShadow);
     return true;
@@ -2828,44 +2793,6 @@ TypedValue ShadowContext::getValue(const WorkItem* workItem,
   }
 }
 
-bool ShadowContext::isCleanImage(const TypedValue shadowImage)
-{
-  return (isCleanImageAddress(shadowImage) &&
-          isCleanImageDescription(shadowImage) &&
-          isCleanImageFormat(shadowImage));
-}
-
-bool ShadowContext::isCleanImageAddress(const TypedValue shadowImage)
-{
-  Image* image = (Image*)shadowImage.data;
-
-  return ShadowContext::isCleanValue(image->address);
-}
-
-bool ShadowContext::isCleanImageDescription(const TypedValue shadowImage)
-{
-  Image* image = (Image*)shadowImage.data;
-
-  // TODO: image->desc.buffer is currently not checked
-  return (ShadowContext::isCleanValue(image->desc.image_type) &&
-          ShadowContext::isCleanValue(image->desc.image_width) &&
-          ShadowContext::isCleanValue(image->desc.image_height) &&
-          ShadowContext::isCleanValue(image->desc.image_depth) &&
-          ShadowContext::isCleanValue(image->desc.image_array_size) &&
-          ShadowContext::isCleanValue(image->desc.image_row_pitch) &&
-          ShadowContext::isCleanValue(image->desc.image_slice_pitch) &&
-          ShadowContext::isCleanValue(image->desc.num_mip_levels) &&
-          ShadowContext::isCleanValue(image->desc.num_samples));
-}
-
-bool ShadowContext::isCleanImageFormat(const TypedValue shadowImage)
-{
-  Image* image = (Image*)shadowImage.data;
-
-  return (ShadowContext::isCleanValue(image->format.image_channel_order) &&
-          ShadowContext::isCleanValue(image->format.image_channel_data_type));
-}
-
 bool ShadowContext::isCleanStruct(ShadowMemory* shadowMemory, size_t address,
                                   const llvm::StructType* structTy)
 {
diff --git a/src/plugins/Uninitialized.h b/src/plugins/Uninitialized.h
index ec3ffb4..77c5706 100644
--- a/src/plugins/Uninitialized.h
+++ b/src/plugins/Uninitialized.h
@@ -232,10 +232,6 @@ public:
     return llvm::isa<llvm::Constant>(V) || m_globalValues.count(V) ||
            m_workSpace.workItems->at(workItem)->getValues()->hasValue(V);
   }
-  static bool isCleanImage(const TypedValue shadowImage);
-  static bool isCleanImageAddress(const TypedValue shadowImage);
-  static bool isCleanImageDescription(const TypedValue shadowImage);
-  static bool isCleanImageFormat(const TypedValue shadowImage);
   static bool isCleanStruct(ShadowMemory* shadowMemory, size_t address,
                             const llvm::StructType* structTy);
   static bool isCleanValue(unsigned long v);
-- 
2.43.0


From 5d03482d50a528aea6dac5b437187982772b045e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:29 +0000
Subject: [PATCH 60/82] fix: failing to link a program terminates the host
 application

A symbol defined by two input programs made LLVM's default diagnostic
handler call exit(1). Report the diagnostic and return
CL_LINK_PROGRAM_FAILURE instead; the partial module was also leaked.
---
 src/core/Program.cpp    | 47 +++++++++++++++++++++++++++++++++--------
 src/runtime/runtime.cpp |  2 +-
 2 files changed, 39 insertions(+), 10 deletions(-)

diff --git a/src/core/Program.cpp b/src/core/Program.cpp
index bb15ded..2a76ac8 100644
--- a/src/core/Program.cpp
+++ b/src/core/Program.cpp
@@ -20,6 +20,9 @@
 #include "llvm/IR/AssemblyAnnotationWriter.h"
 #include "llvm/IR/Constants.h"
 #include "llvm/IR/DerivedTypes.h"
+#include "llvm/IR/DiagnosticHandler.h"
+#include "llvm/IR/DiagnosticInfo.h"
+#include "llvm/IR/DiagnosticPrinter.h"
 #include "llvm/IR/InstIterator.h"
 #include "llvm/IR/InstrTypes.h"
 #include "llvm/IR/Instructions.h"
@@ -83,6 +86,21 @@ using namespace std;
 
 namespace
 {
+/** Prints diagnostics from the IR linker without terminating the process. */
+struct LinkDiagnosticHandler : public llvm::DiagnosticHandler
+{
+  bool handleDiagnostics(const llvm::DiagnosticInfo& info) override
+  {
+    string message;
+    llvm::raw_string_ostream stream(message);
+    llvm::DiagnosticPrinterRawOStream printer(stream);
+    info.print(printer);
+    cerr << llvm::LLVMContext::getDiagnosticMessagePrefix(info.getSeverity())
+         << ": " << stream.str() << endl;
+    return true;
+  }
+};
+
 void setBinaryType(llvm::Module& mod, cl_program_binary_type type)
 {
   llvm::LLVMContext& ctx = mod.getContext();
@@ -710,21 +728,32 @@ Program* Program::createFromPrograms(const Context* context,
                                      list<const Program*> programs,
                                      const char* options)
 {
-  llvm::Module* module =
-    new llvm::Module("oclgrind_linked", *context->getLLVMContext());
-  llvm::Linker linker(*module);
+  unique_ptr<llvm::Module> module(
+    new llvm::Module("oclgrind_linked", *context->getLLVMContext()));
+
+  // Linking reports errors (e.g. a symbol defined twice) as diagnostics, which
+  // would otherwise terminate the host application
+  llvm::LLVMContext& llvmContext = *context->getLLVMContext();
+  unique_ptr<llvm::DiagnosticHandler> previousHandler =
+    llvmContext.getDiagnosticHandler();
+  llvmContext.setDiagnosticHandler(
+    unique_ptr<llvm::DiagnosticHandler>(new LinkDiagnosticHandler));
 
   // Link modules
+  bool failed = false;
+  llvm::Linker linker(*module);
   list<const Program*>::iterator itr;
-  for (itr = programs.begin(); itr != programs.end(); itr++)
+  for (itr = programs.begin(); itr != programs.end() && !failed; itr++)
   {
     unique_ptr<llvm::Module> m = llvm::CloneModule(*(*itr)->m_module);
-    if (linker.linkInModule(std::move(m)))
-    {
-      return NULL;
-    }
+    failed = linker.linkInModule(std::move(m));
   }
 
+  llvmContext.setDiagnosticHandler(std::move(previousHandler));
+
+  if (failed)
+    return NULL;
+
   // Set program binary type
   cl_program_binary_type binaryType = CL_PROGRAM_BINARY_TYPE_EXECUTABLE;
   if (options && strstr(options, "-create-library"))
@@ -733,7 +762,7 @@ Program* Program::createFromPrograms(const Context* context,
   }
   setBinaryType(*module, binaryType);
 
-  return new Program(context, module);
+  return new Program(context, module.release());
 }
 
 Kernel* Program::createKernel(const string name)
diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 41127ce..93b80d3 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -2846,7 +2846,7 @@ clLinkProgram(cl_context context, cl_uint num_devices,
   prog->refCount = 1;
   if (!prog->program)
   {
-    SetError(context, CL_INVALID_BINARY);
+    SetError(context, CL_LINK_PROGRAM_FAILURE);
     delete prog;
     return NULL;
   }
-- 
2.43.0


From dc631c1556156a8be559dc46cb9d28b159956237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:29 +0000
Subject: [PATCH 61/82] fix: failed clCompileProgram never calls the
 application's callback

It also returned CL_BUILD_PROGRAM_FAILURE rather than
CL_COMPILE_PROGRAM_FAILURE.
---
 src/runtime/runtime.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 93b80d3..32790be 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -2777,10 +2777,8 @@ CL_API_ENTRY cl_int CL_API_CALL clCompileProgram(
   }
 
   // Build program
-  if (!program->program->build(oclgrind::Program::COMPILE, options, headers))
-  {
-    ReturnError(program->context, CL_BUILD_PROGRAM_FAILURE);
-  }
+  bool success =
+    program->program->build(oclgrind::Program::COMPILE, options, headers);
 
   // Fire callback
   if (pfn_notify)
@@ -2788,6 +2786,11 @@ CL_API_ENTRY cl_int CL_API_CALL clCompileProgram(
     pfn_notify(program, user_data);
   }
 
+  if (!success)
+  {
+    ReturnError(program->context, CL_COMPILE_PROGRAM_FAILURE);
+  }
+
   return CL_SUCCESS;
 }
 
-- 
2.43.0


From 85f4cfdf3578a9ff578e9e55537e2c0eafd32f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:29 +0000
Subject: [PATCH 62/82] fix: host application terminated when
 OCLGRIND_DUMP_SPIR cannot write

A raw_fd_ostream destroyed with an unhandled error (disk full, unwritable
directory) calls report_fatal_error.
---
 src/core/Program.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/core/Program.cpp b/src/core/Program.cpp
index 2a76ac8..2f50e18 100644
--- a/src/core/Program.cpp
+++ b/src/core/Program.cpp
@@ -655,6 +655,15 @@ bool Program::build(BuildType buildType, const char* options,
       llvm::raw_fd_ostream bc(tempBC, err, llvm::sys::fs::OF_None);
       llvm::WriteBitcodeToFile(*m_module, bc);
       bc.close();
+
+      // An unhandled stream error would terminate the host application
+      if (ir.has_error() || bc.has_error())
+      {
+        cerr << "Oclgrind: failed to write " << tempIR << " or " << tempBC
+             << endl;
+        ir.clear_error();
+        bc.clear_error();
+      }
     }
 
     delete[] tempCL;
-- 
2.43.0


From af9e62e30d6f56bafbca86b1a140b4679d4150be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:29 +0000
Subject: [PATCH 63/82] fix: querying program binaries with a NULL entry
 crashes

---
 src/runtime/runtime.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 32790be..ccf722b 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -2974,7 +2974,10 @@ CL_API_ENTRY cl_int CL_API_CALL clGetProgramInfo(
     }
     else if (param_name == CL_PROGRAM_BINARIES)
     {
-      program->program->getBinary(((unsigned char**)param_value)[0]);
+      // A NULL entry means that the binary is not wanted
+      unsigned char* binary = ((unsigned char**)param_value)[0];
+      if (binary)
+        program->program->getBinary(binary);
     }
     else
     {
-- 
2.43.0


From 50ba814244fe80cea0f45b3f6fd3d065048a9031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:22 +0000
Subject: [PATCH 64/82] fix: build options -w and -Werror have no effect

The diagnostics engine is created before the options are parsed.
---
 src/core/Program.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/core/Program.cpp b/src/core/Program.cpp
index 2f50e18..ec9841a 100644
--- a/src/core/Program.cpp
+++ b/src/core/Program.cpp
@@ -561,6 +561,17 @@ bool Program::build(BuildType buildType, const char* options,
   clang::CompilerInvocation::CreateFromArgs(*invocation, args,
                                             compiler.getDiagnostics());
   compiler.setInvocation(invocation);
+
+  // Apply -w, -Werror and -W options, which were not known when the diagnostics
+  // engine was created
+#if LLVM_VERSION >= 200
+  clang::ProcessWarningOptions(compiler.getDiagnostics(),
+                               invocation->getDiagnosticOpts(),
+                               *llvm::vfs::getRealFileSystem());
+#else
+  clang::ProcessWarningOptions(compiler.getDiagnostics(),
+                               invocation->getDiagnosticOpts());
+#endif
 #endif
 
   // Remap include files
-- 
2.43.0


From 8871b0b909296d8cd12ed5886cf522264969f491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:54 +0000
Subject: [PATCH 65/82] fix: the debugger replaces the SIGINT handler of the
 application

The handler was restored at every prompt and at the end of every kernel,
whether or not it had been saved, which reset it to the default action.
---
 src/plugins/InteractiveDebugger.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/plugins/InteractiveDebugger.cpp b/src/plugins/InteractiveDebugger.cpp
index b9b2f1a..5a5a79e 100644
--- a/src/plugins/InteractiveDebugger.cpp
+++ b/src/plugins/InteractiveDebugger.cpp
@@ -48,6 +48,15 @@ using namespace std;
 static bool sigintBreak = false;
 #if !defined(_WIN32) || defined(__MINGW32__)
 static struct sigaction m_oldSignalHandler;
+static bool m_signalHandlerActive = false;
+static void restoreSignalHandler()
+{
+  if (m_signalHandlerActive)
+  {
+    sigaction(SIGINT, &m_oldSignalHandler, NULL);
+    m_signalHandlerActive = false;
+  }
+}
 void handleSignal(int s)
 {
   if (s == SIGINT)
@@ -94,7 +103,7 @@ void InteractiveDebugger::instructionExecuted(
 
 #if !defined(_WIN32) || defined(__MINGW32__)
   // Restore old signal handler
-  sigaction(SIGINT, &m_oldSignalHandler, NULL);
+  restoreSignalHandler();
 #endif
 
   m_forceBreak = false;
@@ -207,7 +216,7 @@ void InteractiveDebugger::kernelEnd(const KernelInvocation* kernelInvocation)
 
 #if !defined(_WIN32) || defined(__MINGW32__)
   // Restore old signal handler
-  sigaction(SIGINT, &m_oldSignalHandler, NULL);
+  restoreSignalHandler();
 #endif
 }
 
@@ -435,6 +444,7 @@ bool InteractiveDebugger::cont(vector<string> args)
   sigemptyset(&sigHandler.sa_mask);
   sigHandler.sa_flags = 0;
   sigaction(SIGINT, &sigHandler, &m_oldSignalHandler);
+  m_signalHandlerActive = true;
 #endif
 
   m_continue = true;
@@ -855,7 +865,7 @@ bool InteractiveDebugger::quit(vector<string> args)
 {
 #if !defined(_WIN32) || defined(__MINGW32__)
   // Restore old signal handler
-  sigaction(SIGINT, &m_oldSignalHandler, NULL);
+  restoreSignalHandler();
 #endif
 
   m_running = false;
-- 
2.43.0


From e38e7dfd90859a5e8ddb6b96f1ca90cc80da002b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:14 +0000
Subject: [PATCH 66/82] fix: bounds check of memory accesses overflows

A size close to the maximum (e.g. given to the gmem command of the debugger)
passed the check, so that memory outside of the buffer was read.
---
 src/core/Memory.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/Memory.cpp b/src/core/Memory.cpp
index 98cb3fc..43436a4 100644
--- a/src/core/Memory.cpp
+++ b/src/core/Memory.cpp
@@ -407,7 +407,8 @@ bool Memory::isAddressValid(size_t address, size_t size) const
   size_t buffer = extractBuffer(address);
   size_t offset = extractOffset(address);
   if (buffer == 0 || buffer >= m_memory.size() || !m_memory[buffer] ||
-      offset + size > m_memory[buffer]->size)
+      offset > m_memory[buffer]->size ||
+      size > m_memory[buffer]->size - offset)
   {
     return false;
   }
-- 
2.43.0


From 42a6d19810fb15095dc8151df78ae425002ff6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:14 +0000
Subject: [PATCH 67/82] fix: the debugger prints line numbers in hexadecimal
 after examining memory

---
 src/plugins/InteractiveDebugger.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/plugins/InteractiveDebugger.cpp b/src/plugins/InteractiveDebugger.cpp
index 5a5a79e..f383b41 100644
--- a/src/plugins/InteractiveDebugger.cpp
+++ b/src/plugins/InteractiveDebugger.cpp
@@ -182,7 +182,11 @@ void InteractiveDebugger::instructionExecuted(
     map<string, Command>::iterator itr = m_commands.find(tokens[0]);
     if (itr != m_commands.end())
     {
-      if ((this->*itr->second)(tokens))
+      bool resume = (this->*itr->second)(tokens);
+
+      // Commands may have printed numbers in hexadecimal
+      cout << dec;
+      if (resume)
         break;
     }
     else
-- 
2.43.0


From ebe23a0436ff5b5bca9741c55220a386f2983c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:14 +0000
Subject: [PATCH 68/82] fix: the workitem command of the debugger ignores the
 global work offset

The global IDs that it accepts, prints and switches to did not include the
offset, and more than three of them were written past the end of an array.
---
 src/core/KernelInvocation.cpp       |  5 ++++-
 src/plugins/InteractiveDebugger.cpp | 14 +++++++++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/core/KernelInvocation.cpp b/src/core/KernelInvocation.cpp
index 978d328..4407be5 100644
--- a/src/core/KernelInvocation.cpp
+++ b/src/core/KernelInvocation.cpp
@@ -257,10 +257,13 @@ void KernelInvocation::runWorker(int id)
   }
 }
 
-bool KernelInvocation::switchWorkItem(const Size3 gid)
+bool KernelInvocation::switchWorkItem(const Size3 globalID)
 {
   assert(m_numWorkers == 1);
 
+  Size3 gid(globalID.x - m_globalOffset.x, globalID.y - m_globalOffset.y,
+            globalID.z - m_globalOffset.z);
+
   // Compute work-group ID
   Size3 group(gid.x / m_localSize.x, gid.y / m_localSize.y,
               gid.z / m_localSize.z);
diff --git a/src/plugins/InteractiveDebugger.cpp b/src/plugins/InteractiveDebugger.cpp
index f383b41..70fa42e 100644
--- a/src/plugins/InteractiveDebugger.cpp
+++ b/src/plugins/InteractiveDebugger.cpp
@@ -905,14 +905,22 @@ bool InteractiveDebugger::step(vector<string> args)
 
 bool InteractiveDebugger::workitem(vector<string> args)
 {
-  // TODO: Take offsets into account?
-  Size3 gid(0, 0, 0);
+  if (args.size() > 4)
+  {
+    cout << "Invalid global ID." << endl;
+    return false;
+  }
+
+  const Size3 offset = m_kernelInvocation->getGlobalOffset();
+  const Size3 size = m_kernelInvocation->getGlobalSize();
+  Size3 gid = offset;
   for (unsigned i = 1; i < args.size(); i++)
   {
     // Parse argument as a target line number
     istringstream ss(args[i]);
     ss >> gid[i - 1];
-    if (!ss.eof() || gid[i - 1] >= m_kernelInvocation->getGlobalSize()[i - 1])
+    if (!ss.eof() || gid[i - 1] < offset[i - 1] ||
+        gid[i - 1] - offset[i - 1] >= size[i - 1])
     {
       cout << "Invalid global ID." << endl;
       return false;
-- 
2.43.0


From 82c5b84b0af41e87e058d84d0b512c4393c278b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:41 +0000
Subject: [PATCH 69/82] fix: switching to a remainder work-group in the
 debugger runs it too large

The work-group got the full local size, so that work-items outside of the
ND-range were executed.
---
 src/core/KernelInvocation.cpp | 29 ++++++++++++++++++-----------
 src/core/KernelInvocation.h   |  3 ++-
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/core/KernelInvocation.cpp b/src/core/KernelInvocation.cpp
index 4407be5..fb68397 100644
--- a/src/core/KernelInvocation.cpp
+++ b/src/core/KernelInvocation.cpp
@@ -175,6 +175,20 @@ int KernelInvocation::getWorkerID() const
   return workerState.id;
 }
 
+Size3 KernelInvocation::getWorkGroupSize(const Size3& wgid) const
+{
+  Size3 wgsize = m_localSize;
+
+  // Handle remainder work-groups
+  for (unsigned i = 0; i < 3; i++)
+  {
+    if (wgsize[i] * (wgid[i] + 1) > m_globalSize[i])
+      wgsize[i] = m_globalSize[i] % wgsize[i];
+  }
+
+  return wgsize;
+}
+
 void KernelInvocation::runWorker(int id)
 {
   workerState.workGroup = NULL;
@@ -200,16 +214,8 @@ void KernelInvocation::runWorker(int id)
           break;
 
         Size3 wgid = m_workGroups[index];
-        Size3 wgsize = m_localSize;
-
-        // Handle remainder work-groups
-        for (unsigned i = 0; i < 3; i++)
-        {
-          if (wgsize[i] * (wgid[i] + 1) > m_globalSize[i])
-            wgsize[i] = m_globalSize[i] % wgsize[i];
-        }
-
-        workerState.workGroup = new WorkGroup(this, wgid, wgsize);
+        workerState.workGroup =
+          new WorkGroup(this, wgid, getWorkGroupSize(wgid));
         m_context->notifyWorkGroupBegin(workerState.workGroup);
       }
 
@@ -302,7 +308,8 @@ bool KernelInvocation::switchWorkItem(const Size3 globalID)
     {
       if (group == *pItr)
       {
-        workerState.workGroup = new WorkGroup(this, group);
+        workerState.workGroup =
+          new WorkGroup(this, group, getWorkGroupSize(group));
         m_context->notifyWorkGroupBegin(workerState.workGroup);
         found = true;
 
diff --git a/src/core/KernelInvocation.h b/src/core/KernelInvocation.h
index 13cd709..3230925 100644
--- a/src/core/KernelInvocation.h
+++ b/src/core/KernelInvocation.h
@@ -32,7 +32,7 @@ public:
   const Kernel* getKernel() const;
   Size3 getNumGroups() const;
   size_t getWorkDim() const;
-  bool switchWorkItem(const Size3 gid);
+  bool switchWorkItem(const Size3 globalID);
 
   int getWorkerID() const;
 
@@ -59,6 +59,7 @@ private:
 
   // Worker threads
   void runWorker(int id);
+  Size3 getWorkGroupSize(const Size3& wgid) const;
   unsigned m_numWorkers;
 };
 } // namespace oclgrind
-- 
2.43.0


From 258e04c5e89760396fcfd0146506a213c0901e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:41 +0000
Subject: [PATCH 70/82] fix: printing a variable of a function that has
 returned crashes

The debugger looked up variables by their name only, so that it found those
of other functions, whose private memory may have been released.
---
 src/core/WorkItem.cpp         | 17 +++++++++++------
 src/core/WorkItem.h           |  2 +-
 src/core/WorkItemBuiltins.cpp |  6 ++++--
 3 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/core/WorkItem.cpp b/src/core/WorkItem.cpp
index 72d6df0..0e695af 100644
--- a/src/core/WorkItem.cpp
+++ b/src/core/WorkItem.cpp
@@ -349,7 +349,8 @@ void WorkItem::execute(const llvm::Instruction* instruction)
       {
         const llvm::Value* value = dbgVar->getValue();
         const llvm::DILocalVariable* var = dbgVar->getVariable();
-        m_variables[var->getName().str()] = {value, var};
+        m_variables[instruction->getFunction()][var->getName().str()] = {value,
+                                                                         var};
       }
     }
   }
@@ -519,12 +520,15 @@ void WorkItem::printExpression(string expr) const
   const llvm::DIVariable* divar = NULL;
 
   // Check private variables
-  VariableMap::const_iterator itr;
-  itr = m_variables.find(basename);
-  if (itr != m_variables.end())
+  auto variables = m_variables.find(m_position->currBlock->getParent());
+  if (variables != m_variables.end())
   {
-    baseValue = itr->second.first;
-    divar = itr->second.second;
+    VariableMap::const_iterator itr = variables->second.find(basename);
+    if (itr != variables->second.end())
+    {
+      baseValue = itr->second.first;
+      divar = itr->second.second;
+    }
   }
 
   // Check global variables
@@ -926,6 +930,7 @@ INSTRUCTION(call)
     m_position->callStack.push(&*m_position->currInst);
     m_position->allocations.push(list<size_t>());
     m_position->nextBlock = &*function->begin();
+    m_variables.erase(function);
 
     // Set function arguments
     llvm::Function::const_arg_iterator argItr;
diff --git a/src/core/WorkItem.h b/src/core/WorkItem.h
index 42999fe..399d229 100644
--- a/src/core/WorkItem.h
+++ b/src/core/WorkItem.h
@@ -189,7 +189,7 @@ private:
   Size3 m_globalID;
   Size3 m_localID;
   TypedValueMap m_phiTemps;
-  VariableMap m_variables;
+  std::map<const llvm::Function*, VariableMap> m_variables;
   const Context* m_context;
   const KernelInvocation* m_kernelInvocation;
   Memory* m_privateMemory;
diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 583a5bd..e0f536c 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -3561,7 +3561,8 @@ class WorkItemBuiltins
     const llvm::Value* addr = dbgInst->getAddress();
 
     const llvm::DILocalVariable* var = dbgInst->getVariable();
-    workItem->m_variables[var->getName().str()] = {addr, var};
+    workItem->m_variables[callInst->getFunction()][var->getName().str()] = {
+      addr, var};
   }
 
   DEFINE_BUILTIN(llvm_dbg_value)
@@ -3573,7 +3574,8 @@ class WorkItemBuiltins
     // uint64_t offset = dbgInst->getOffset();
 
     const llvm::DILocalVariable* var = dbgInst->getVariable();
-    workItem->m_variables[var->getName().str()] = {value, var};
+    workItem->m_variables[callInst->getFunction()][var->getName().str()] = {
+      value, var};
   }
 
   DEFINE_BUILTIN(llvm_lifetime_start)
-- 
2.43.0


From 6bbc6c710ef98db5bcd4fa2bc60c2cc0d1a9d0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:53 +0000
Subject: [PATCH 71/82] fix: 'next' steps into a function if the line begins
 with its call

When the debugger stops right after a call instruction, the call stack already
contains the caller, which also appeared twice in the backtrace.
---
 src/plugins/InteractiveDebugger.cpp | 21 +++++++++++++++++----
 src/plugins/InteractiveDebugger.h   |  1 +
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/plugins/InteractiveDebugger.cpp b/src/plugins/InteractiveDebugger.cpp
index 70fa42e..d2a8c56 100644
--- a/src/plugins/InteractiveDebugger.cpp
+++ b/src/plugins/InteractiveDebugger.cpp
@@ -110,7 +110,7 @@ void InteractiveDebugger::instructionExecuted(
   sigintBreak = false;
 
   // Print function if changed
-  if (m_previousDepth != workItem->getCallStack().size() &&
+  if (m_previousDepth != getCallDepth(workItem) &&
       workItem->getState() != WorkItem::FINISHED)
   {
     cout << "In function ";
@@ -234,6 +234,17 @@ void InteractiveDebugger::log(MessageType type, const char* message)
 //// Utility Functions ////
 ///////////////////////////
 
+size_t InteractiveDebugger::getCallDepth(const WorkItem* workItem) const
+{
+  const stack<const llvm::Instruction*>& callStack = workItem->getCallStack();
+
+  // A call that has just been executed is still the current instruction
+  if (!callStack.empty() &&
+      callStack.top() == workItem->getCurrentInstruction())
+    return callStack.size() - 1;
+  return callStack.size();
+}
+
 size_t InteractiveDebugger::getCurrentLineNumber() const
 {
   const WorkItem* workItem = m_kernelInvocation->getCurrentWorkItem();
@@ -369,7 +380,7 @@ bool InteractiveDebugger::shouldShowPrompt(const WorkItem* workItem)
     return true;
 
   size_t line = getCurrentLineNumber();
-  if (m_next && workItem->getCallStack().size() > m_previousDepth)
+  if (m_next && getCallDepth(workItem) > m_previousDepth)
     return false;
   if (!line || line == m_previousLine)
     return false;
@@ -390,6 +401,8 @@ bool InteractiveDebugger::backtrace(vector<string> args)
   }
 
   stack<const llvm::Instruction*> callStack = workItem->getCallStack();
+  if (callStack.size() > getCallDepth(workItem))
+    callStack.pop();
 
   // Print current instruction
   cout << "#" << callStack.size() << " ";
@@ -832,7 +845,7 @@ bool InteractiveDebugger::next(vector<string> args)
   }
 
   // Step until we return to the same depth
-  m_previousDepth = workItem->getCallStack().size();
+  m_previousDepth = getCallDepth(workItem);
   m_previousLine = getCurrentLineNumber();
   m_next = true;
 
@@ -897,7 +910,7 @@ bool InteractiveDebugger::step(vector<string> args)
   }
 
   // Save current position
-  m_previousDepth = workItem->getCallStack().size();
+  m_previousDepth = getCallDepth(workItem);
   m_previousLine = getCurrentLineNumber();
 
   return true;
diff --git a/src/plugins/InteractiveDebugger.h b/src/plugins/InteractiveDebugger.h
index 312c23e..d6b606f 100644
--- a/src/plugins/InteractiveDebugger.h
+++ b/src/plugins/InteractiveDebugger.h
@@ -40,6 +40,7 @@ private:
   const Program* m_program;
   const KernelInvocation* m_kernelInvocation;
 
+  size_t getCallDepth(const WorkItem* workItem) const;
   size_t getCurrentLineNumber() const;
   size_t getLineNumber(const llvm::Instruction* instruction) const;
   bool hasHitBreakpoint();
-- 
2.43.0


From 7cebbb80bd5e08af92f796dbd40f5fcb7ee824e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:06 +0000
Subject: [PATCH 72/82] fix: work-groups at a barrier are abandoned after a
 switch in the debugger

A work-group that was switched away from when all of its work-items that can
run had reached a barrier was taken for finished when it was resumed.
---
 src/core/KernelInvocation.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/KernelInvocation.cpp b/src/core/KernelInvocation.cpp
index fb68397..a3cca07 100644
--- a/src/core/KernelInvocation.cpp
+++ b/src/core/KernelInvocation.cpp
@@ -221,6 +221,12 @@ void KernelInvocation::runWorker(int id)
 
       // Execute work-group
       workerState.workItem = workerState.workGroup->getNextWorkItem();
+      if (!workerState.workItem && workerState.workGroup->hasBarrier())
+      {
+        // All work-items of a group from the running pool are at a barrier
+        workerState.workGroup->clearBarrier();
+        workerState.workItem = workerState.workGroup->getNextWorkItem();
+      }
       while (workerState.workItem)
       {
         // Run work-item until complete or at barrier
-- 
2.43.0


From 7802a8a7be75b2889d35b387c88160f77bba33b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:48 +0000
Subject: [PATCH 73/82] fix: printing a member of a vector crashes the debugger

---
 src/core/WorkItem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/WorkItem.cpp b/src/core/WorkItem.cpp
index 0e695af..d8d952d 100644
--- a/src/core/WorkItem.cpp
+++ b/src/core/WorkItem.cpp
@@ -706,7 +706,7 @@ void WorkItem::printExpression(string expr) const
       {
         auto elem =
           llvm::dyn_cast<llvm::DIDerivedType>(elements->getOperand(i));
-        if (elem->getName() == element)
+        if (elem && elem->getName() == element)
         {
           // Increment data pointer by offset and update type
           type = type->getStructElementType(i);
-- 
2.43.0


From 24250b70f5214b53a1e13dd6d43a8ee6a9d1769f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:01 +0000
Subject: [PATCH 74/82] fix: the path to the installation is not terminated

readlink() does not add a terminating null character, so that the
realpath() of an uninitialised array failed (or named another file)
depending on what the stack contained.
---
 src/runtime/oclgrind.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/runtime/oclgrind.cpp b/src/runtime/oclgrind.cpp
index 82204fe..625e651 100644
--- a/src/runtime/oclgrind.cpp
+++ b/src/runtime/oclgrind.cpp
@@ -416,14 +416,15 @@ static string getLibDirPath()
     die("getting path to Oclgrind installation");
   libdir = path;
 #else
-  char exepath[PATH_MAX];
+  char exepath[PATH_MAX] = "";
   char path[PATH_MAX];
   // Get path to executable
 #if defined(__APPLE__)
   uint32_t sz = PATH_MAX;
   if (_NSGetExecutablePath(exepath, &sz))
 #else // not apple
-  if (readlink("/proc/self/exe", exepath, PATH_MAX) == -1)
+  // readlink() does not terminate the path
+  if (readlink("/proc/self/exe", exepath, PATH_MAX - 1) == -1)
 #endif
   {
     cerr << "[Oclgrind] Unable to get path to Oclgrind installation" << endl;
-- 
2.43.0


From 2a093ee1a288334dab55bfca1db3244e7c4baf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:01 +0000
Subject: [PATCH 75/82] fix: sizes of 4 GiB and more are truncated to 32 bits

getEnvInt() returned an unsigned int, so that --global-mem-size 4294967296
made a device without memory; negative numbers were accepted.
---
 src/core/common.cpp | 7 ++++---
 src/core/common.h   | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/common.cpp b/src/core/common.cpp
index 10acc6e..302ca69 100644
--- a/src/core/common.cpp
+++ b/src/core/common.cpp
@@ -289,15 +289,16 @@ bool checkEnv(const char* var)
   return (value && !strcmp(value, "1"));
 }
 
-unsigned getEnvInt(const char* var, int def, bool allowZero)
+size_t getEnvInt(const char* var, int def, bool allowZero)
 {
   const char* value = getenv(var);
   if (!value)
     return def;
 
   char* next;
-  uint64_t result = strtoul(value, &next, 10);
-  if (strlen(next) || result == ULONG_MAX || (!allowZero && !result))
+  unsigned long long result = strtoull(value, &next, 10);
+  if (!isdigit(value[0]) || strlen(next) || result >= SIZE_MAX ||
+      (!allowZero && !result))
   {
     cerr << endl << "Oclgrind: Invalid value for " << var << endl;
     abort();
diff --git a/src/core/common.h b/src/core/common.h
index 70ebbc5..4f20733 100644
--- a/src/core/common.h
+++ b/src/core/common.h
@@ -160,7 +160,7 @@ struct Image
 bool checkEnv(const char* var);
 
 // Get an environment variable as an integer
-unsigned getEnvInt(const char* var, int def = 0, bool allowZero = true);
+size_t getEnvInt(const char* var, int def = 0, bool allowZero = true);
 
 // Output an instruction in human-readable format
 void dumpInstruction(std::ostream& out, const llvm::Instruction* instruction);
-- 
2.43.0


From 5e36367f98f60e8643e423d009e940f53990a854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:18 +0000
Subject: [PATCH 76/82] fix: clEnqueueWaitForEvents does not check its event
 list

A NULL event crashed the application, events of other contexts and empty
lists were accepted.
---
 src/runtime/runtime.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index ccf722b..2be5636 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -5637,6 +5637,26 @@ clEnqueueWaitForEvents(cl_command_queue command_queue, cl_uint num_events,
   {
     ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
   }
+  if (num_events == 0)
+  {
+    ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, num_events);
+  }
+  if (!event_list)
+  {
+    ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, event_list);
+  }
+  for (cl_uint i = 0; i < num_events; i++)
+  {
+    if (!event_list[i])
+    {
+      ReturnErrorInfo(command_queue->context, CL_INVALID_EVENT,
+                      "event_list[" << i << "] is NULL");
+    }
+    if (event_list[i]->context != command_queue->context)
+    {
+      ReturnError(command_queue->context, CL_INVALID_CONTEXT);
+    }
+  }
 
   // Enqueue command
   oclgrind::Command* cmd = new oclgrind::Command();
-- 
2.43.0


From ee6a6bb2979d09c93498ebb31181f9144f78ea7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:18 +0000
Subject: [PATCH 77/82] fix: the binary type of a program that was not built is
 undefined

---
 src/core/Program.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/Program.cpp b/src/core/Program.cpp
index ec9841a..7638dfe 100644
--- a/src/core/Program.cpp
+++ b/src/core/Program.cpp
@@ -156,6 +156,7 @@ Program::Program(const Context* context, const string& source)
   m_buildLog = "";
   m_buildOptions = "";
   m_buildStatus = CL_BUILD_NONE;
+  m_binaryType = CL_PROGRAM_BINARY_TYPE_NONE;
   m_uid = 0;
   m_totalProgramScopeVarSize = 0;
 
-- 
2.43.0


From fae6c07cd8235fda9eb59851e12268f68b0a4548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:18 +0000
Subject: [PATCH 78/82] fix: clCompileProgram and clLinkProgram do not check
 their programs

A program or header that is missing, or a program that was not compiled,
crashed the application; linking no programs gave a program.
---
 src/runtime/runtime.cpp | 46 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 2be5636..b9abead 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -2767,6 +2767,26 @@ CL_API_ENTRY cl_int CL_API_CALL clCompileProgram(
   {
     ReturnErrorArg(program->context, CL_INVALID_DEVICE, device);
   }
+  if (!num_input_headers != !input_headers ||
+      !num_input_headers != !header_include_names)
+  {
+    ReturnErrorInfo(program->context, CL_INVALID_VALUE,
+                    "num_input_headers, input_headers and "
+                    "header_include_names do not match");
+  }
+  for (unsigned i = 0; i < num_input_headers; i++)
+  {
+    if (!header_include_names[i])
+    {
+      ReturnErrorInfo(program->context, CL_INVALID_VALUE,
+                      "header_include_names[" << i << "] is NULL");
+    }
+    if (!input_headers[i])
+    {
+      ReturnErrorInfo(program->context, CL_INVALID_PROGRAM,
+                      "input_headers[" << i << "] is NULL");
+    }
+  }
 
   // Prepare headers
   list<oclgrind::Program::Header> headers;
@@ -2832,6 +2852,32 @@ clLinkProgram(cl_context context, cl_uint num_devices,
     SetErrorArg(context, CL_INVALID_DEVICE, device_list);
     return NULL;
   }
+  if (num_input_programs == 0)
+  {
+    SetErrorArg(context, CL_INVALID_VALUE, num_input_programs);
+    return NULL;
+  }
+  if (!input_programs)
+  {
+    SetErrorArg(context, CL_INVALID_VALUE, input_programs);
+    return NULL;
+  }
+  for (unsigned i = 0; i < num_input_programs; i++)
+  {
+    if (!input_programs[i])
+    {
+      SetErrorInfo(context, CL_INVALID_PROGRAM,
+                   "input_programs[" << i << "] is NULL");
+      return NULL;
+    }
+    if (input_programs[i]->program->getBinaryType() ==
+        CL_PROGRAM_BINARY_TYPE_NONE)
+    {
+      SetErrorInfo(context, CL_INVALID_OPERATION,
+                   "input_programs[" << i << "] is not compiled");
+      return NULL;
+    }
+  }
 
   // Prepare programs
   list<const oclgrind::Program*> programs;
-- 
2.43.0


From cb55af1e716533e7037f970c339c143cc863bbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:56 +0000
Subject: [PATCH 79/82] fix: the attributes of a kernel are copied from freed
 memory

clGetKernelInfo(CL_KERNEL_ATTRIBUTES) kept a pointer into the temporary
string that Kernel::getAttributes returned.
---
 src/runtime/runtime.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index b9abead..fa2404f 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -3363,6 +3363,7 @@ CL_API_ENTRY cl_int CL_API_CALL clGetKernelInfo(
     cl_program program;
   } result_data;
   const char* str = 0;
+  std::string attributes;
 
   switch (param_name)
   {
@@ -3387,8 +3388,9 @@ CL_API_ENTRY cl_int CL_API_CALL clGetKernelInfo(
     result_data.program = kernel->program;
     break;
   case CL_KERNEL_ATTRIBUTES:
-    result_size = kernel->kernel->getAttributes().size() + 1;
-    str = kernel->kernel->getAttributes().c_str();
+    attributes = kernel->kernel->getAttributes();
+    result_size = attributes.size() + 1;
+    str = attributes.c_str();
     break;
   default:
     ReturnErrorArg(kernel->program->context, CL_INVALID_VALUE, param_name);
-- 
2.43.0


From e3c650cdeefdb15091227bbcfb4fef2a4b55c2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:24 +0000
Subject: [PATCH 80/82] fix: the vector type hint of a kernel is reported with
 LLVM type names

Integer types lost their signedness and were written as i8, i16, i32 or i64,
and scalar types got a width of 1.
---
 src/core/Kernel.cpp | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/core/Kernel.cpp b/src/core/Kernel.cpp
index 84af079..082ba8c 100644
--- a/src/core/Kernel.cpp
+++ b/src/core/Kernel.cpp
@@ -358,10 +358,30 @@ string Kernel::getAttributes() const
 
     // Generate attribute string
     attributes << "vec_type_hint(" << flush;
-    llvm::raw_os_ostream out(attributes);
-    type->print(out);
-    out.flush();
-    attributes << n << ") ";
+    if (type->isIntegerTy())
+    {
+      // Use the OpenCL name of the type
+      bool isSigned =
+        node->getNumOperands() < 2 ||
+        getMDAsConstInt(node->getOperand(1))->getZExtValue() != 0;
+      unsigned bits = type->getIntegerBitWidth();
+      attributes << (isSigned ? "" : "u")
+                 << (bits == 8    ? "char"
+                     : bits == 16 ? "short"
+                     : bits == 32 ? "int"
+                                  : "long");
+    }
+    else
+    {
+      llvm::raw_os_ostream out(attributes);
+      type->print(out);
+      out.flush();
+    }
+    if (n > 1)
+    {
+      attributes << n;
+    }
+    attributes << ") ";
   }
 
   return attributes.str();
-- 
2.43.0


From d3e0ec8881fa6c8a2f3fb09e5bbbba7a88819028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:48 +0000
Subject: [PATCH 81/82] fix: a kernel has the local variables of kernels whose
 names begin with its own

Local variables were assigned to every kernel whose name is a prefix of their
name, which is that of their kernel followed by a dot. The local memory size of
kernel f thus included the variables of kernel f2.
---
 src/core/Kernel.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/Kernel.cpp b/src/core/Kernel.cpp
index 082ba8c..d9c02b2 100644
--- a/src/core/Kernel.cpp
+++ b/src/core/Kernel.cpp
@@ -50,8 +50,9 @@ Kernel::Kernel(const Program* program, const llvm::Function* function,
       break;
     case AddrSpaceLocal:
     {
-      // Check that local memory variable belongs to this kernel
-      if (!itr->getName().starts_with(m_name))
+      // Check that local memory variable belongs to this kernel (it is named
+      // kernel.variable, and the name of one kernel may begin with another)
+      if (!itr->getName().starts_with(m_name + "."))
         continue;
 
       // Get size of allocation
-- 
2.43.0


From 717be99753d548b2d436b5de3a3cd07c23a7a735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:48 +0000
Subject: [PATCH 82/82] fix: the type name of a structure called image... is
 cut

Only the access qualifier of an image type is to be removed: 'struct image_info'
was reported as 'image_info'.
---
 src/core/Kernel.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/Kernel.cpp b/src/core/Kernel.cpp
index d9c02b2..a317ef4 100644
--- a/src/core/Kernel.cpp
+++ b/src/core/Kernel.cpp
@@ -256,7 +256,8 @@ const llvm::StringRef Kernel::getArgumentTypeName(unsigned int index) const
 
   llvm::StringRef name = llvm::dyn_cast<llvm::MDString>(md)->getString();
   size_t imgStart = name.find(" image");
-  if (imgStart != llvm::StringRef::npos)
+  if (imgStart != llvm::StringRef::npos && !name.starts_with("struct ") &&
+      !name.starts_with("union ") && !name.starts_with("enum "))
   {
     name = name.substr(imgStart + 1);
   }
-- 
2.43.0

