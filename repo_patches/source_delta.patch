From fd35967dec6022004db1b00f301371508f4f9f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:33 +0000
Subject: [PATCH 01/14] fix: a machine that has ended stays ended

start() cleared the ended flag after running the initial entry, and a stop() racing with a
transition could have its end state overwritten by the transition's target.
---
 .../statemachine/GenericStateMachine.java     | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index 51b54bb..8727e8f 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -229,12 +229,10 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
         }
       }
     }
-    if (isStarted.compareAndSet(false, true)) {
-      currentState = initState;
+    if (beginIn(initState)) {
       notifyStateMachineListener(false, noState, immediateEvent, initState);
       initState.onEntry(immediateEvent, this);
       notifyStateMachineListener(true, noState, immediateEvent, initState);
-      isEnded.set(false);
     } else {
       throw new IllegalStateException("The state machine has already been started");
     }
@@ -258,14 +256,22 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
     if (!states.containsKey(state)) {
       throw new IllegalStateException("State [" + state + "] has not been configured");
     }
-    if (isStarted.compareAndSet(false, true)) {
-      this.currentState = state;
-      isEnded.set(false);
-    } else {
+    if (!beginIn(state)) {
       throw new IllegalStateException("The state machine has already been started");
     }
   }
 
+  /* The current state and the flags change together so that a stop is never undone by a start */
+  private synchronized boolean beginIn(State<T, S> state) {
+    if (isStarted.get()) {
+      return false;
+    }
+    isEnded.set(false);
+    currentState = state;
+    isStarted.set(true);
+    return true;
+  }
+
   @Override
   public boolean isStarted() {
     return isStarted.get();
@@ -315,7 +321,7 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
     this.stateMachineListener = stateMachineListener;
   }
 
-  public void updateCurrentState(State<T, S> state) {
+  public synchronized void updateCurrentState(State<T, S> state) {
     if (isEnded.compareAndSet(false, state.equals(endState))) {
       currentState = state;
     }
-- 
2.43.0


From 3f86a32424d92ed01a82924dc0202d986c4c834a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:33 +0000
Subject: [PATCH 02/14] fix: publish the current state and the listener safely

Both are read by the processing thread while other threads change them; clearing the listener
between the null check and the call failed the transition.
---
 .../webotech/statemachine/GenericStateMachine.java    | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index 8727e8f..5b8b6f3 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -37,11 +37,11 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
   private final T context;
   private final EventProcessingStrategy<T, S> eventProcessingStrategy;
   private final UnexpectedFlowListener<T, S> unexpectedFlowListener;
-  private StateMachineListener<T, S> stateMachineListener;
+  private volatile StateMachineListener<T, S> stateMachineListener;
   private State<T, S> initState;
   private State<T, S> markedState;
   private StateEvent<S> markedEvent;
-  private State<T, S> currentState;
+  private volatile State<T, S> currentState;
 
   private GenericStateMachine(T context, Map<State<T, S>, Map<StateEvent<S>, State<T, S>>> states,
       StateMachineListener<T, S> stateMachineListener,
@@ -186,7 +186,8 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
 
   public void notifyStateMachineListener(boolean isComplete, State<T, S> fromState,
       StateEvent<S> stateEvent, State<T, S> toState) {
-    if (this.stateMachineListener != null) {
+    StateMachineListener<T, S> listener = this.stateMachineListener;
+    if (listener != null) {
       if (fromState == null) {
         fromState = this.noState;
       }
@@ -197,9 +198,9 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
         stateEvent = this.immediateEvent;
       }
       if (isComplete) {
-        this.stateMachineListener.onStateChangeEnd(fromState, stateEvent, toState);
+        listener.onStateChangeEnd(fromState, stateEvent, toState);
       } else {
-        this.stateMachineListener.onStateChangeBegin(fromState, stateEvent, toState);
+        listener.onStateChangeBegin(fromState, stateEvent, toState);
       }
     }
   }
-- 
2.43.0


From 44433c59eb8019a4bda355ec2f8e1e897a829eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:33 +0000
Subject: [PATCH 03/14] fix: receives() no longer erases an outcome that is
 already configured

---
 .../java/com/webotech/statemachine/GenericStateMachine.java     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index 5b8b6f3..fe16af4 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -91,7 +91,7 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
     assertInitStateDefined(true);
     assertMarkedStateDefined(true);
     this.markedEvent = stateEvent;
-    this.states.get(this.markedState).put(this.markedEvent, null);
+    this.states.get(this.markedState).putIfAbsent(this.markedEvent, null);
     return this;
   }
 
-- 
2.43.0


From a23758faee2632841cc6202f2e47b7362b0a2db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:33 +0000
Subject: [PATCH 04/14] fix: reject a transition that is configured without an
 event

---
 .../java/com/webotech/statemachine/GenericStateMachine.java    | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index fe16af4..060db94 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -149,6 +149,9 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
   }
 
   private void assertEventNotMapped() {
+    if (this.markedEvent == null) {
+      throw new IllegalStateException("A StateEvent has to be defined first using receives().");
+    }
     State<T, S> toState = this.states.get(this.markedState).get(this.markedEvent);
     if (toState != null) {
       throw new IllegalStateException(
-- 
2.43.0


From d6b213eee994ebbfb07d6163befd3471d9719d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:33 +0000
Subject: [PATCH 05/14] fix: machines built from one builder get their own
 default strategy

---
 .../com/webotech/statemachine/GenericStateMachine.java    | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index 060db94..f31d4c7 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -374,11 +374,11 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
     }
 
     public GenericStateMachine<T, S> build() {
-      if (eventProcessingStrategy == null) {
-        eventProcessingStrategy = EventProcessingStrategyFactory.createDefaultStrategy();
+      EventProcessingStrategy<T, S> strategy = eventProcessingStrategy;
+      if (strategy == null) {
+        strategy = EventProcessingStrategyFactory.createDefaultStrategy();
       }
-      return new GenericStateMachine<>(context, new HashMap<>(), stateMachineListener,
-          eventProcessingStrategy);
+      return new GenericStateMachine<>(context, new HashMap<>(), stateMachineListener, strategy);
     }
   }
 }
-- 
2.43.0


From 9774c3ac67e4fcb8fee9f0f276561dafec449edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:33 +0000
Subject: [PATCH 06/14] fix: strategies no longer share the default queue and
 executor

The defaults were stored in the configuration, including the static one, so that all machines with
a default strategy processed each other's events.
---
 .../statemachine/strategy/EventProcessingStrategyFactory.java | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/strategy/EventProcessingStrategyFactory.java b/src/main/java/com/webotech/statemachine/strategy/EventProcessingStrategyFactory.java
index 458d3b7..4d10b9f 100644
--- a/src/main/java/com/webotech/statemachine/strategy/EventProcessingStrategyFactory.java
+++ b/src/main/java/com/webotech/statemachine/strategy/EventProcessingStrategyFactory.java
@@ -114,7 +114,7 @@ public class EventProcessingStrategyFactory {
 
     ExecutorService getExecutor() {
       if (executor == null) {
-        executor = Executors.newSingleThreadExecutor(
+        return Executors.newSingleThreadExecutor(
             Threads.newNamedDaemonThreadFactory(threadName == null ? "state-machine" : threadName,
                 (t, e) -> logger.error(LOG_UNHANDLED_EXCEPTION, t.getName(), e)));
       }
@@ -138,7 +138,7 @@ public class EventProcessingStrategyFactory {
 
     Queue<EventMachinePair<T, S>> getEventQueue() {
       if (eventQueue == null) {
-        eventQueue = new ConcurrentLinkedQueue<>();
+        return new ConcurrentLinkedQueue<>();
       }
       return eventQueue;
     }
-- 
2.43.0


From 4be9fcf7afd07d319d458f2d3db223f246de0bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:33 +0000
Subject: [PATCH 07/14] fix: an event carrier that is given back to the pool is
 reset

The pool kept the last event, payload and machine of each carrier reachable.
---
 .../statemachine/strategy/DropDuplicateEventStrategy.java       | 2 +-
 .../webotech/statemachine/strategy/EventMachinePairPool.java    | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/java/com/webotech/statemachine/strategy/DropDuplicateEventStrategy.java b/src/main/java/com/webotech/statemachine/strategy/DropDuplicateEventStrategy.java
index 2abcb94..a2d8850 100644
--- a/src/main/java/com/webotech/statemachine/strategy/DropDuplicateEventStrategy.java
+++ b/src/main/java/com/webotech/statemachine/strategy/DropDuplicateEventStrategy.java
@@ -42,7 +42,7 @@ public class DropDuplicateEventStrategy<T, S> implements EventProcessingStrategy
   @Override
   public void processEvent(StateEvent<S> stateEvent, GenericStateMachine<T, S> stateMachine) {
     Queue<EventMachinePair<T, S>> eventQueue = defaultStrategy.getEventQueue();
-    if (eventQueue.stream().anyMatch(en -> en.getStateEvent().equals(stateEvent))) {
+    if (eventQueue.stream().anyMatch(en -> stateEvent.equals(en.getStateEvent()))) {
       logger.info(EVENT_ALREADY_IN_QUEUE_WILL_DROP_IT, stateEvent);
       return;
     }
diff --git a/src/main/java/com/webotech/statemachine/strategy/EventMachinePairPool.java b/src/main/java/com/webotech/statemachine/strategy/EventMachinePairPool.java
index 6a2f4bd..0188fbe 100644
--- a/src/main/java/com/webotech/statemachine/strategy/EventMachinePairPool.java
+++ b/src/main/java/com/webotech/statemachine/strategy/EventMachinePairPool.java
@@ -30,6 +30,7 @@ public class EventMachinePairPool<T, S> {
    */
   void give(EventMachinePair<T, S> eventMachinePair) {
     if (eventMachinePair != null) {
+      eventMachinePair.setEventMachinePair(null, null);
       pool.offer(eventMachinePair);
     }
   }
-- 
2.43.0


From ffd4bbbbd4f62310b2dadbf443bdd7d19eb4e88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:33 +0000
Subject: [PATCH 08/14] fix: report an event that the queue refuses

---
 .../statemachine/strategy/DefaultEventStrategy.java       | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
index 3e870db..91bc8ce 100644
--- a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
+++ b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
@@ -83,7 +83,13 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
     } else {
       inboundPair.setEventMachinePair(stateEvent, stateMachine);
     }
-    eventQueue.offer(inboundPair);
+    if (!eventQueue.offer(inboundPair)) {
+      eventMachinePairPool.give(inboundPair);
+      unexpectedFlowListener.onExceptionDuringEventProcessing(stateEvent, stateMachine,
+          Thread.currentThread(), new IllegalStateException(
+              "The event queue refused the event - dropping event"));
+      return;
+    }
     executor.execute(() -> {
       while (!eventQueue.isEmpty()) {
         EventMachinePair<T, S> consumedPair = eventQueue.poll();
-- 
2.43.0


From f207725c0328bc348d70aa6f9cd33024c06da9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:33 +0000
Subject: [PATCH 09/14] fix: events of other types keep their type when they
 carry a payload

A custom event was replaced by a NamedStateEvent, which never equals the event that was mapped.
---
 .../webotech/statemachine/strategy/DefaultEventStrategy.java    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
index 91bc8ce..6ef91ae 100644
--- a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
+++ b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
@@ -76,7 +76,7 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
       return;
     }
     EventMachinePair<T, S> inboundPair = this.eventMachinePairPool.take();
-    if (stateEvent.getPayload() != null) {
+    if (stateEvent instanceof NamedStateEvent && stateEvent.getPayload() != null) {
       /* Use a safe copy of the StateEvent in case the client is
         setting different payloads on the same event instance */
       inboundPair.setEventMachinePair(new NamedStateEvent<>(stateEvent), stateMachine);
-- 
2.43.0


From eda9d55d6294fe3752a35a2d2f87781c4bf8ec05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:33 +0000
Subject: [PATCH 10/14] fix: a listener that throws no longer hides
 announcements from the other listeners

---
 .../MultiConsumerStateMachineListener.java    | 30 +++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/main/java/com/webotech/statemachine/MultiConsumerStateMachineListener.java b/src/main/java/com/webotech/statemachine/MultiConsumerStateMachineListener.java
index aeaf46d..5ac9df1 100644
--- a/src/main/java/com/webotech/statemachine/MultiConsumerStateMachineListener.java
+++ b/src/main/java/com/webotech/statemachine/MultiConsumerStateMachineListener.java
@@ -45,15 +45,41 @@ public class MultiConsumerStateMachineListener<T, S> implements StateMachineList
 
   @Override
   public void onStateChangeBegin(State<T, S> fromState, StateEvent<S> event, State<T, S> toState) {
+    RuntimeException failure = null;
     for (StateMachineListener<T, S> stateMachineListener : consumers.values()) {
-      stateMachineListener.onStateChangeBegin(fromState, event, toState);
+      try {
+        stateMachineListener.onStateChangeBegin(fromState, event, toState);
+      } catch (RuntimeException e) {
+        failure = firstFailure(failure, e);
+      }
+    }
+    if (failure != null) {
+      throw failure;
     }
   }
 
   @Override
   public void onStateChangeEnd(State<T, S> fromState, StateEvent<S> event, State<T, S> toState) {
+    RuntimeException failure = null;
     for (StateMachineListener<T, S> stateMachineListener : consumers.values()) {
-      stateMachineListener.onStateChangeEnd(fromState, event, toState);
+      try {
+        stateMachineListener.onStateChangeEnd(fromState, event, toState);
+      } catch (RuntimeException e) {
+        failure = firstFailure(failure, e);
+      }
+    }
+    if (failure != null) {
+      throw failure;
+    }
+  }
+
+  private static RuntimeException firstFailure(RuntimeException first, RuntimeException next) {
+    if (first == null) {
+      return next;
+    }
+    if (first != next) {
+      first.addSuppressed(next);
     }
+    return first;
   }
 }
-- 
2.43.0


From 6a674d8c422dcad2e63854b97aa23c01a4d888a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:33 +0000
Subject: [PATCH 11/14] fix: a machine whose initial state ends immediately
 ends on start

---
 .../java/com/webotech/statemachine/GenericStateMachine.java    | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/java/com/webotech/statemachine/GenericStateMachine.java b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
index f31d4c7..a83c88f 100644
--- a/src/main/java/com/webotech/statemachine/GenericStateMachine.java
+++ b/src/main/java/com/webotech/statemachine/GenericStateMachine.java
@@ -237,6 +237,9 @@ public class GenericStateMachine<T, S> implements StateMachine<T, S> {
       notifyStateMachineListener(false, noState, immediateEvent, initState);
       initState.onEntry(immediateEvent, this);
       notifyStateMachineListener(true, noState, immediateEvent, initState);
+      if (endState.equals(states.get(initState).get(immediateEvent))) {
+        stop();
+      }
     } else {
       throw new IllegalStateException("The state machine has already been started");
     }
-- 
2.43.0


From 889c852ddf2c6c1eaf550ff01d4ac342cd36aa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:19 +0000
Subject: [PATCH 12/14] fix: start() returns normally when the app stops while
 it is being released

The latch is released while the end of the machine is still queued, so start() could call stop() on
an app that had stopped already, which throws when the machine ends in between.
---
 .../com/webotech/statemachine/service/AbstractAppService.java    | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/main/java/com/webotech/statemachine/service/AbstractAppService.java b/src/main/java/com/webotech/statemachine/service/AbstractAppService.java
index ec4893f..a306e44 100644
--- a/src/main/java/com/webotech/statemachine/service/AbstractAppService.java
+++ b/src/main/java/com/webotech/statemachine/service/AbstractAppService.java
@@ -128,7 +128,6 @@ public abstract class AbstractAppService<C extends AppContext<C>> implements App
       } catch (InterruptedException e) {
         logger.error("Main latch was interrupted", e);
         Thread.currentThread().interrupt();
-      } finally {
         if (!appStateMachine.isEnded()) {
           stop();
         }
-- 
2.43.0


From 312922084ee3935d233bdcb812440334da8e26c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:19 +0000
Subject: [PATCH 13/14] fix: a further stop in restartable mode releases the
 thread blocked in start()

---
 .../webotech/statemachine/service/AbstractAppService.java  | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/main/java/com/webotech/statemachine/service/AbstractAppService.java b/src/main/java/com/webotech/statemachine/service/AbstractAppService.java
index a306e44..d9e1f35 100644
--- a/src/main/java/com/webotech/statemachine/service/AbstractAppService.java
+++ b/src/main/java/com/webotech/statemachine/service/AbstractAppService.java
@@ -102,6 +102,13 @@ public abstract class AbstractAppService<C extends AppContext<C>> implements App
       }
     });
 
+    stopped.appendExitActions((event, stateMachine) -> {
+      if (LifecycleStateMachineUtil.evtStop.equals(event)) {
+        // the app ends, in restartable mode this is the only place to release the thread in start()
+        appLatch.countDown();
+      }
+    });
+
     LifecycleStateMachineUtil.configureAppStateMachine(appStateMachine, uninitialised, starting,
         started, stopping, stopped);
   }
-- 
2.43.0


From bf9c0a47b62cee9aaf86c469d94d5a2ad9c14f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:32 +0000
Subject: [PATCH 14/14] fix: an event fired without a payload does not pick up
 a later one

---
 .../webotech/statemachine/strategy/DefaultEventStrategy.java    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
index 6ef91ae..70e84d6 100644
--- a/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
+++ b/src/main/java/com/webotech/statemachine/strategy/DefaultEventStrategy.java
@@ -76,7 +76,7 @@ public class DefaultEventStrategy<T, S> implements EventProcessingStrategy<T, S>
       return;
     }
     EventMachinePair<T, S> inboundPair = this.eventMachinePairPool.take();
-    if (stateEvent instanceof NamedStateEvent && stateEvent.getPayload() != null) {
+    if (stateEvent instanceof NamedStateEvent) {
       /* Use a safe copy of the StateEvent in case the client is
         setting different payloads on the same event instance */
       inboundPair.setEventMachinePair(new NamedStateEvent<>(stateEvent), stateMachine);
-- 
2.43.0

