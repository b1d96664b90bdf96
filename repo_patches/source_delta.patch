From 9e9e192e8846c5ff846e585058c3d04e9b9206df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:43 +0000
Subject: [PATCH 01/29] fix: addArc rejects a zero weight

Transitions created with an arc of weight zero are rejected, but addArc
accepted it. Firing such a transition empties the place (input arc) or
throws in the middle of the firing (output arc).
---
 PTN_Engine/Transition.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/PTN_Engine/Transition.cpp b/PTN_Engine/Transition.cpp
index 4ac0a5f..9d660c2 100755
--- a/PTN_Engine/Transition.cpp
+++ b/PTN_Engine/Transition.cpp
@@ -218,6 +218,11 @@ void Transition::addArc(const shared_ptr<Place> &place, const ArcProperties::Typ
 {
 	unique_lock guard(m_mutex);
 
+	if (weight == 0)
+	{
+		throw ZeroValueWeightException();
+	}
+
 	auto addArcTo = [&place, weight](auto &placesContainer)
 	{
 		auto sameNameAs = [&place](const auto &arc)
-- 
2.43.0


From b6c8ff23a16d3ca8bafcebe379a618a323806c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:43 +0000
Subject: [PATCH 02/29] fix: editing a bidirectional arc is all or nothing

When only one of the two arcs could be added or removed, the request
failed with the other arc already changed.
---
 PTN_Engine/Transition.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/PTN_Engine/Transition.cpp b/PTN_Engine/Transition.cpp
index 9d660c2..4419634 100755
--- a/PTN_Engine/Transition.cpp
+++ b/PTN_Engine/Transition.cpp
@@ -250,7 +250,15 @@ void Transition::addArc(const shared_ptr<Place> &place, const ArcProperties::Typ
 	case BIDIRECTIONAL:
 	{
 		addArcTo(m_activationArcs);
-		addArcTo(m_destinationArcs);
+		try
+		{
+			addArcTo(m_destinationArcs);
+		}
+		catch (...)
+		{
+			m_activationArcs.pop_back();
+			throw;
+		}
 		break;
 	}
 	case DESTINATION:
@@ -300,8 +308,10 @@ void Transition::removeArc(const shared_ptr<Place> &place, const ArcProperties::
 	}
 	case BIDIRECTIONAL:
 	{
-		removePlaceFrom(m_activationArcs);
+		auto activationArcs = m_activationArcs;
+		removePlaceFrom(activationArcs);
 		removePlaceFrom(m_destinationArcs);
+		m_activationArcs = std::move(activationArcs);
 		break;
 	}
 	case DESTINATION:
-- 
2.43.0


From 648aa1ff84ad15642724613c23385ca430bb86e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:08 +0000
Subject: [PATCH 03/29] fix: check destination places for overflow before
 moving tokens

A firing that overflowed a destination place failed after the tokens of
the activation places had been removed, and these were lost.
---
 PTN_Engine/Transition.cpp | 22 ++++++++++++++++++++++
 PTN_Engine/Transition.h   |  3 +++
 2 files changed, 25 insertions(+)

diff --git a/PTN_Engine/Transition.cpp b/PTN_Engine/Transition.cpp
index 4419634..21af208 100755
--- a/PTN_Engine/Transition.cpp
+++ b/PTN_Engine/Transition.cpp
@@ -25,6 +25,7 @@
 #include "PTN_Engine/Utilities/LockWeakPtr.h"
 #include <algorithm>
 #include <array>
+#include <limits>
 #include <mutex>
 #include <vector>
 
@@ -380,10 +381,31 @@ bool Transition::noActionsInExecution() const
 
 void Transition::performTransit() const
 {
+	checkDestinationPlaces();
 	exitActivationPlaces();
 	enterDestinationPlaces();
 }
 
+void Transition::checkDestinationPlaces() const
+{
+	for (const Arc &destinationArc : m_destinationArcs)
+	{
+		SharedPtrPlace spPlace = lockWeakPtr(destinationArc.place);
+		size_t tokens = spPlace->getNumberOfTokens();
+
+		auto samePlace = [&spPlace](const auto &arc) { return lockWeakPtr(arc.place) == spPlace; };
+		if (auto it = ranges::find_if(m_activationArcs, samePlace); it != m_activationArcs.cend())
+		{
+			tokens -= it->weight;
+		}
+
+		if (destinationArc.weight > numeric_limits<size_t>::max() - tokens)
+		{
+			throw OverflowException(destinationArc.weight);
+		}
+	}
+}
+
 void Transition::exitActivationPlaces() const
 {
 	for (const Arc &activationArc : m_activationArcs)
diff --git a/PTN_Engine/Transition.h b/PTN_Engine/Transition.h
index 41f8146..c2750e8 100755
--- a/PTN_Engine/Transition.h
+++ b/PTN_Engine/Transition.h
@@ -132,6 +132,9 @@ private:
 	//!
 	bool checkAdditionalConditions() const;
 
+	//! Throws if any destination place would overflow by firing the transition.
+	void checkDestinationPlaces() const;
+
 	//! Inserts tokens in the destination places.
 	void enterDestinationPlaces() const;
 
-- 
2.43.0


From cce7e3868330e0480ead1d5f9301fbe9e60df286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:29 +0000
Subject: [PATCH 04/29] fix: an action that throws does not stay counted as in
 execution

Its place blocked every transition that requires no actions in execution
for good.
---
 PTN_Engine/Executor/SingleThreadExecutor.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/PTN_Engine/Executor/SingleThreadExecutor.cpp b/PTN_Engine/Executor/SingleThreadExecutor.cpp
index 09e3d7d..3a9053c 100644
--- a/PTN_Engine/Executor/SingleThreadExecutor.cpp
+++ b/PTN_Engine/Executor/SingleThreadExecutor.cpp
@@ -27,7 +27,15 @@ using namespace std;
 void SingleThreadExecutor::executeAction(const ActionFunction &action, atomic<size_t> &actionsInExecution)
 {
 	++actionsInExecution;
-	action();
+	try
+	{
+		action();
+	}
+	catch (...)
+	{
+		--actionsInExecution;
+		throw;
+	}
 	--actionsInExecution;
 }
 
-- 
2.43.0


From c6cfbfa3823dada5d7e12d0397a889185aa26008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:48 +0000
Subject: [PATCH 05/29] fix: a firing is completed also when one of its actions
 throws

Tokens had been removed from some of the activation places only, or were
never added to the destination places. The error is passed on once the
firing is complete.
---
 PTN_Engine/Transition.cpp | 34 ++++++++++++++++++++++++++++------
 PTN_Engine/Transition.h   | 15 +++++++++++----
 2 files changed, 39 insertions(+), 10 deletions(-)

diff --git a/PTN_Engine/Transition.cpp b/PTN_Engine/Transition.cpp
index 21af208..55cde33 100755
--- a/PTN_Engine/Transition.cpp
+++ b/PTN_Engine/Transition.cpp
@@ -25,6 +25,7 @@
 #include "PTN_Engine/Utilities/LockWeakPtr.h"
 #include <algorithm>
 #include <array>
+#include <exception>
 #include <limits>
 #include <mutex>
 #include <vector>
@@ -382,8 +383,15 @@ bool Transition::noActionsInExecution() const
 void Transition::performTransit() const
 {
 	checkDestinationPlaces();
-	exitActivationPlaces();
-	enterDestinationPlaces();
+
+	exception_ptr firstError;
+	exitActivationPlaces(firstError);
+	enterDestinationPlaces(firstError);
+
+	if (firstError)
+	{
+		rethrow_exception(firstError);
+	}
 }
 
 void Transition::checkDestinationPlaces() const
@@ -406,7 +414,7 @@ void Transition::checkDestinationPlaces() const
 	}
 }
 
-void Transition::exitActivationPlaces() const
+void Transition::exitActivationPlaces(exception_ptr &firstError) const
 {
 	for (const Arc &activationArc : m_activationArcs)
 	{
@@ -415,12 +423,19 @@ void Transition::exitActivationPlaces() const
 
 		if (SharedPtrPlace spPlace = lockWeakPtr(activationPlace))
 		{
-			spPlace->exitPlace(activationWeight);
+			try
+			{
+				spPlace->exitPlace(activationWeight);
+			}
+			catch (...)
+			{
+				firstError = firstError ? firstError : current_exception();
+			}
 		}
 	}
 }
 
-void Transition::enterDestinationPlaces() const
+void Transition::enterDestinationPlaces(exception_ptr &firstError) const
 {
 	for (const Arc &destinationArc : m_destinationArcs)
 	{
@@ -429,7 +444,14 @@ void Transition::enterDestinationPlaces() const
 
 		if (SharedPtrPlace spPlace = lockWeakPtr(destinationPlace))
 		{
-			spPlace->enterPlace(destinationWeight);
+			try
+			{
+				spPlace->enterPlace(destinationWeight);
+			}
+			catch (...)
+			{
+				firstError = firstError ? firstError : current_exception();
+			}
 		}
 	}
 }
diff --git a/PTN_Engine/Transition.h b/PTN_Engine/Transition.h
index c2750e8..a7270d4 100755
--- a/PTN_Engine/Transition.h
+++ b/PTN_Engine/Transition.h
@@ -21,6 +21,7 @@
 #pragma once
 
 #include "PTN_Engine/PTN_Engine.h"
+#include <exception>
 #include <functional>
 #include <memory>
 #include <shared_mutex>
@@ -135,11 +136,17 @@ private:
 	//! Throws if any destination place would overflow by firing the transition.
 	void checkDestinationPlaces() const;
 
-	//! Inserts tokens in the destination places.
-	void enterDestinationPlaces() const;
+	//!
+	//! \brief Inserts tokens in the destination places.
+	//! \param firstError - keeps the first error thrown by an action.
+	//!
+	void enterDestinationPlaces(std::exception_ptr &firstError) const;
 
-	//! Removes the tokens from the activation places.
-	void exitActivationPlaces() const;
+	//!
+	//! \brief Removes the tokens from the activation places.
+	//! \param firstError - keeps the first error thrown by an action.
+	//!
+	void exitActivationPlaces(std::exception_ptr &firstError) const;
 
 	//!
 	//! \brief Evaluates if the transition can be fired.
-- 
2.43.0


From 435f889321565c643ab47dddbb70e08b32100b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:48 +0000
Subject: [PATCH 06/29] fix: unblock the activation places when a condition or
 action throws

They stayed blocked, so that the next entry action of any of them was
never started and the caller waited forever.
---
 PTN_Engine/Transition.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/PTN_Engine/Transition.cpp b/PTN_Engine/Transition.cpp
index 55cde33..9ecb4b3 100755
--- a/PTN_Engine/Transition.cpp
+++ b/PTN_Engine/Transition.cpp
@@ -86,14 +86,22 @@ bool Transition::execute()
 
 	blockStartingOnEnterActions(true);
 
-	if (!isActive())
+	try
 	{
-		result = false;
+		if (!isActive())
+		{
+			result = false;
+		}
+		else
+		{
+			performTransit();
+			result = true;
+		}
 	}
-	else
+	catch (...)
 	{
-		performTransit();
-		result = true;
+		blockStartingOnEnterActions(false);
+		throw;
 	}
 
 	blockStartingOnEnterActions(false);
-- 
2.43.0


From d7464cf46fb0c032ea680cc743bc69f5b826c8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:01 +0000
Subject: [PATCH 07/29] fix: a transition that waits for actions does not hang
 the engine

A place blocked by the transition waited for the transition while holding
its own lock, or, being also a destination of the transition, on the very
thread that had to unblock it.
---
 PTN_Engine/Place.cpp      | 22 ++++++++++++----------
 PTN_Engine/Place.h        |  4 ++++
 PTN_Engine/Transition.cpp |  2 ++
 3 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/PTN_Engine/Place.cpp b/PTN_Engine/Place.cpp
index 27a6f7b..f792ec9 100644
--- a/PTN_Engine/Place.cpp
+++ b/PTN_Engine/Place.cpp
@@ -23,7 +23,6 @@
 #include "PTN_Engine/Utilities/LockWeakPtr.h"
 #include <mutex>
 #include <string>
-#include <thread>
 
 
 namespace ptne
@@ -61,18 +60,14 @@ string Place::getName() const
 void Place::enterPlace(const size_t tokens)
 {
 	unique_lock guard(m_mutex);
-	increaseNumberOfTokens(tokens);
 	if (m_onEnterAction == nullptr)
 	{
+		increaseNumberOfTokens(tokens);
 		return;
 	}
-	while (m_blockStartingOnEnterActions)
-	{
-		// TO DO make this wait period configurable
-		// add a max wait time after which an exception
-		// is thrown.
-		this_thread::sleep_for(100ms);
-	}
+	// the place must stay accessible for the transition that has blocked it
+	m_onEnterActionsUnblocked.wait(guard, [this] { return !m_blockStartingOnEnterActions; });
+	increaseNumberOfTokens(tokens);
 	lockWeakPtr(m_actionsExecutor)->executeAction(m_onEnterAction, m_onEnterActionsInExecution);
 }
 
@@ -155,7 +150,14 @@ bool Place::isOnEnterActionInExecution() const
 
 void Place::blockStartingOnEnterActions(const bool value)
 {
-	m_blockStartingOnEnterActions = value;
+	{
+		unique_lock guard(m_mutex);
+		m_blockStartingOnEnterActions = value;
+	}
+	if (!value)
+	{
+		m_onEnterActionsUnblocked.notify_all();
+	}
 }
 
 PlaceProperties Place::placeProperties() const
diff --git a/PTN_Engine/Place.h b/PTN_Engine/Place.h
index b07186a..47b3efa 100755
--- a/PTN_Engine/Place.h
+++ b/PTN_Engine/Place.h
@@ -20,6 +20,7 @@
 
 #include "PTN_Engine/PTN_Engine.h"
 #include <atomic>
+#include <condition_variable>
 #include <functional>
 #include <shared_mutex>
 
@@ -134,6 +135,9 @@ private:
 	//! Flag to block triggering on enter actions.
 	std::atomic<bool> m_blockStartingOnEnterActions = false;
 
+	//! Signals that on enter actions are not blocked any more.
+	std::condition_variable_any m_onEnterActionsUnblocked;
+
 	//! Flag that determines if the place can be added tokens from outside the net.
 	bool m_isInputPlace = false;
 
diff --git a/PTN_Engine/Transition.cpp b/PTN_Engine/Transition.cpp
index 9ecb4b3..0b77687 100755
--- a/PTN_Engine/Transition.cpp
+++ b/PTN_Engine/Transition.cpp
@@ -394,6 +394,8 @@ void Transition::performTransit() const
 
 	exception_ptr firstError;
 	exitActivationPlaces(firstError);
+	// a place that is also a destination must be able to start its on enter action
+	blockStartingOnEnterActions(false);
 	enterDestinationPlaces(firstError);
 
 	if (firstError)
-- 
2.43.0


From f543432de424ecc723d8b2a965e12cd70f15b429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:16 +0000
Subject: [PATCH 08/29] fix: pending actions own what they use

Actions queued or running on another thread referred to the action and to
the counter of actions in execution inside the place, which may be gone by
then (clearNet, destruction of the engine). Actions dropped along with
their job queue stayed counted as in execution.
---
 PTN_Engine/Executor/DetachedExecutor.cpp     |  7 ++---
 PTN_Engine/Executor/DetachedExecutor.h       |  3 +-
 PTN_Engine/Executor/IActionsExecutor.h       | 32 +++++++++++++++++++-
 PTN_Engine/Executor/JobQueueExecutor.cpp     |  7 ++---
 PTN_Engine/Executor/JobQueueExecutor.h       |  3 +-
 PTN_Engine/Executor/SingleThreadExecutor.cpp | 15 ++-------
 PTN_Engine/Executor/SingleThreadExecutor.h   |  3 +-
 PTN_Engine/JobQueue/JobQueue.cpp             |  2 ++
 PTN_Engine/Place.cpp                         |  2 +-
 PTN_Engine/Place.h                           |  5 +--
 10 files changed, 52 insertions(+), 27 deletions(-)

diff --git a/PTN_Engine/Executor/DetachedExecutor.cpp b/PTN_Engine/Executor/DetachedExecutor.cpp
index c7ff828..4353978 100644
--- a/PTN_Engine/Executor/DetachedExecutor.cpp
+++ b/PTN_Engine/Executor/DetachedExecutor.cpp
@@ -25,13 +25,12 @@ namespace ptne
 
 using namespace std;
 
-void DetachedExecutor::executeAction(const ActionFunction &action, atomic<size_t> &actionsInExecution)
+void DetachedExecutor::executeAction(const ActionFunction &action, const shared_ptr<atomic<size_t>> &actionsInExecution)
 {
-	++actionsInExecution;
-	auto job = [&actionsInExecution, &action]()
+	auto job = [actionInExecution = make_shared<ActionInExecution>(actionsInExecution), action]() mutable
 	{
 		action();
-		--actionsInExecution;
+		actionInExecution.reset();
 	};
 	auto t = thread(job);
 	t.detach();
diff --git a/PTN_Engine/Executor/DetachedExecutor.h b/PTN_Engine/Executor/DetachedExecutor.h
index 7316589..0881601 100644
--- a/PTN_Engine/Executor/DetachedExecutor.h
+++ b/PTN_Engine/Executor/DetachedExecutor.h
@@ -26,7 +26,8 @@ namespace ptne
 class DetachedExecutor : public IActionsExecutor
 {
 public:
-    void executeAction(const ActionFunction &action, std::atomic<size_t> &actionsInExecution) override;
+    void executeAction(const ActionFunction &action,
+					   const std::shared_ptr<std::atomic<size_t>> &actionsInExecution) override;
 };
 
 } // namespace ptne
diff --git a/PTN_Engine/Executor/IActionsExecutor.h b/PTN_Engine/Executor/IActionsExecutor.h
index 362157e..2f6a641 100644
--- a/PTN_Engine/Executor/IActionsExecutor.h
+++ b/PTN_Engine/Executor/IActionsExecutor.h
@@ -19,14 +19,44 @@
 #pragma once
 
 #include "PTN_Engine/PTN_Engine.h"
+#include <atomic>
+#include <memory>
 
 namespace ptne
 {
+//!
+//! \brief Keeps an action counted as being in execution for as long as the object exists.
+//! It shares ownership of the counter, since actions may outlive the place that issued them.
+//!
+class ActionInExecution final
+{
+public:
+	explicit ActionInExecution(const std::shared_ptr<std::atomic<size_t>> &actionsInExecution)
+	: m_actionsInExecution(actionsInExecution)
+	{
+		++*m_actionsInExecution;
+	}
+
+	~ActionInExecution()
+	{
+		--*m_actionsInExecution;
+	}
+
+	ActionInExecution(const ActionInExecution &) = delete;
+	ActionInExecution(ActionInExecution &&) = delete;
+	ActionInExecution &operator=(const ActionInExecution &) = delete;
+	ActionInExecution &operator=(ActionInExecution &&) = delete;
+
+private:
+	const std::shared_ptr<std::atomic<size_t>> m_actionsInExecution;
+};
+
 class IActionsExecutor
 {
 public:
 	virtual ~IActionsExecutor() = default;
-	virtual void executeAction(const ActionFunction &action, std::atomic<size_t> &counter) = 0;
+	virtual void executeAction(const ActionFunction &action,
+							   const std::shared_ptr<std::atomic<size_t>> &counter) = 0;
 };
 
 } // namespace ptne
diff --git a/PTN_Engine/Executor/JobQueueExecutor.cpp b/PTN_Engine/Executor/JobQueueExecutor.cpp
index 51ddaec..dc472df 100644
--- a/PTN_Engine/Executor/JobQueueExecutor.cpp
+++ b/PTN_Engine/Executor/JobQueueExecutor.cpp
@@ -24,13 +24,12 @@ namespace ptne
 
 using namespace std;
 
-void JobQueueExecutor::executeAction(const ActionFunction &action, atomic<size_t> &actionsInExecution)
+void JobQueueExecutor::executeAction(const ActionFunction &action, const shared_ptr<atomic<size_t>> &actionsInExecution)
 {
-	++actionsInExecution;
-	auto f = [&actionsInExecution, &action]()
+	auto f = [actionInExecution = make_shared<ActionInExecution>(actionsInExecution), action]() mutable
 	{
 		action();
-		--actionsInExecution;
+		actionInExecution.reset();
 	};
 	m_jobQueue.addJob(f);
 }
diff --git a/PTN_Engine/Executor/JobQueueExecutor.h b/PTN_Engine/Executor/JobQueueExecutor.h
index 36b451c..f4d469e 100644
--- a/PTN_Engine/Executor/JobQueueExecutor.h
+++ b/PTN_Engine/Executor/JobQueueExecutor.h
@@ -27,7 +27,8 @@ namespace ptne
 class JobQueueExecutor : public IActionsExecutor
 {
 public:
-	void executeAction(const ActionFunction &action, std::atomic<size_t> &actionsInExecution) override;
+	void executeAction(const ActionFunction &action,
+					   const std::shared_ptr<std::atomic<size_t>> &actionsInExecution) override;
 
 private:
 	//! Job queue to dispatch actions.
diff --git a/PTN_Engine/Executor/SingleThreadExecutor.cpp b/PTN_Engine/Executor/SingleThreadExecutor.cpp
index 3a9053c..d6bb18b 100644
--- a/PTN_Engine/Executor/SingleThreadExecutor.cpp
+++ b/PTN_Engine/Executor/SingleThreadExecutor.cpp
@@ -24,19 +24,10 @@ namespace ptne
 
 using namespace std;
 
-void SingleThreadExecutor::executeAction(const ActionFunction &action, atomic<size_t> &actionsInExecution)
+void SingleThreadExecutor::executeAction(const ActionFunction &action, const shared_ptr<atomic<size_t>> &actionsInExecution)
 {
-	++actionsInExecution;
-	try
-	{
-		action();
-	}
-	catch (...)
-	{
-		--actionsInExecution;
-		throw;
-	}
-	--actionsInExecution;
+	ActionInExecution actionInExecution(actionsInExecution);
+	action();
 }
 
 } // namespace ptne
diff --git a/PTN_Engine/Executor/SingleThreadExecutor.h b/PTN_Engine/Executor/SingleThreadExecutor.h
index 8f2448e..7c0214d 100644
--- a/PTN_Engine/Executor/SingleThreadExecutor.h
+++ b/PTN_Engine/Executor/SingleThreadExecutor.h
@@ -26,7 +26,8 @@ namespace ptne
 class SingleThreadExecutor : public IActionsExecutor
 {
 public:
-    void executeAction(const ActionFunction &action, std::atomic<size_t> &actionsInExecution) override;
+    void executeAction(const ActionFunction &action,
+					   const std::shared_ptr<std::atomic<size_t>> &actionsInExecution) override;
 };
 
 } // namespace ptne
diff --git a/PTN_Engine/JobQueue/JobQueue.cpp b/PTN_Engine/JobQueue/JobQueue.cpp
index bde84e0..2c96a2f 100755
--- a/PTN_Engine/JobQueue/JobQueue.cpp
+++ b/PTN_Engine/JobQueue/JobQueue.cpp
@@ -83,6 +83,8 @@ void JobQueue::run(stop_token stopToken)
 		m_jobQueue.pop_back();
 		l.unlock();
 		job();
+		// whatever the job owns is released without holding the lock
+		job = nullptr;
 		l.lock();
 	}
 	m_isJobQueueRunning = false;
diff --git a/PTN_Engine/Place.cpp b/PTN_Engine/Place.cpp
index f792ec9..f68b7c1 100644
--- a/PTN_Engine/Place.cpp
+++ b/PTN_Engine/Place.cpp
@@ -145,7 +145,7 @@ string Place::getOnExitActionName() const
 
 bool Place::isOnEnterActionInExecution() const
 {
-	return m_onEnterActionsInExecution > 0;
+	return *m_onEnterActionsInExecution > 0;
 }
 
 void Place::blockStartingOnEnterActions(const bool value)
diff --git a/PTN_Engine/Place.h b/PTN_Engine/Place.h
index 47b3efa..396e40e 100755
--- a/PTN_Engine/Place.h
+++ b/PTN_Engine/Place.h
@@ -22,6 +22,7 @@
 #include <atomic>
 #include <condition_variable>
 #include <functional>
+#include <memory>
 #include <shared_mutex>
 
 namespace ptne
@@ -157,7 +158,7 @@ private:
 	std::string m_onEnterActionName;
 
 	//! Counter of on enter functions being executed.
-	std::atomic<size_t> m_onEnterActionsInExecution = 0;
+	const std::shared_ptr<std::atomic<size_t>> m_onEnterActionsInExecution = std::make_shared<std::atomic<size_t>>(0);
 
 	//! Function to be called when a token leaves the place.
 	const ActionFunction m_onExitAction = nullptr;
@@ -166,7 +167,7 @@ private:
 	std::string m_onExitActionName;
 
 	//! Counter of on exit functions being executed.
-	std::atomic<size_t> m_onExitActionsInExecution = 0;
+	const std::shared_ptr<std::atomic<size_t>> m_onExitActionsInExecution = std::make_shared<std::atomic<size_t>>(0);
 
 	//! Actions executor.
 	std::weak_ptr<IActionsExecutor> m_actionsExecutor;
-- 
2.43.0


From 728a9c260ecf724cbca0acbdf43a185d46356058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:34 +0000
Subject: [PATCH 09/29] fix: a job queue can be paused again before it has run
 another job

The worker thread was joined twice, which ended the program. A job added
while the queue was being paused could also start after it was paused.
---
 PTN_Engine/JobQueue/JobQueue.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/PTN_Engine/JobQueue/JobQueue.cpp b/PTN_Engine/JobQueue/JobQueue.cpp
index 2c96a2f..b92eacc 100755
--- a/PTN_Engine/JobQueue/JobQueue.cpp
+++ b/PTN_Engine/JobQueue/JobQueue.cpp
@@ -44,12 +44,16 @@ void JobQueue::deactivate() noexcept
 	{
 		return;
 	}
-	if (m_workerThread.get_stop_token().stop_possible())
+	{
+		// from here on no other thread launches a worker
+		lock_guard l(m_jobQueueMutex);
+		m_isJobQueueActive = false;
+	}
+	if (m_workerThread.joinable())
 	{
 		m_workerThread.request_stop();
 		m_workerThread.join();
 	}
-	m_isJobQueueActive = false;
 }
 
 bool JobQueue::isActive() const
-- 
2.43.0


From 49a18a0b0c55c6f55dc79ed82da3d1b5f067e921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:34 +0000
Subject: [PATCH 10/29] fix: wait for the thread of the previous run before
 starting again

It could still be waiting at the barrier that start replaces.
---
 PTN_Engine/EventLoop.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/PTN_Engine/EventLoop.cpp b/PTN_Engine/EventLoop.cpp
index f1b7028..2423182 100755
--- a/PTN_Engine/EventLoop.cpp
+++ b/PTN_Engine/EventLoop.cpp
@@ -64,6 +64,11 @@ void EventLoop::start(const bool log, ostream &o)
 	}
 	else
 	{
+		if (m_eventLoopThread.joinable())
+		{
+			// the thread of the previous run may still be using the barrier
+			m_eventLoopThread.join();
+		}
 		m_barrier = make_unique<barrier<>>(2);
 		m_eventLoopThreadRunning = true;
 		m_eventLoopThread = jthread(bind_front(&EventLoop::run, this), log, ref(o));
-- 
2.43.0


From 814181400ebdf72bee5aabcd88590d8d4d36e093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:34 +0000
Subject: [PATCH 11/29] fix: setting the sleep duration does not wait for the
 loop to wake up

The loop held the lock of the sleep duration while resting.
---
 PTN_Engine/EventLoop.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PTN_Engine/EventLoop.cpp b/PTN_Engine/EventLoop.cpp
index 2423182..0c4fa3a 100755
--- a/PTN_Engine/EventLoop.cpp
+++ b/PTN_Engine/EventLoop.cpp
@@ -100,9 +100,9 @@ void EventLoop::run(stop_token stopToken, const bool log, ostream &o)
 	{
 		if (!m_ptnEngine.executeInt(log, o))
 		{
-			shared_lock lock(m_sleepDurationMutex);
+			const SleepDuration sleepDuration = getSleepDuration();
 			unique_lock eventNotifierGuard(m_eventNotifierMutex);
-			m_eventNotifier.wait_for(eventNotifierGuard, m_sleepDuration,
+			m_eventNotifier.wait_for(eventNotifierGuard, sleepDuration,
 									 [this] { return m_ptnEngine.getNewInputReceived(); });
 		}
 	}
-- 
2.43.0


From 588d06960c68adab2d60b6808d37d978c7943885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:34 +0000
Subject: [PATCH 12/29] fix: stopping wakes up a resting event loop

Stopping and destroying the engine took up to a whole sleep duration.
---
 PTN_Engine/EventLoop.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PTN_Engine/EventLoop.cpp b/PTN_Engine/EventLoop.cpp
index 0c4fa3a..d36b2ca 100755
--- a/PTN_Engine/EventLoop.cpp
+++ b/PTN_Engine/EventLoop.cpp
@@ -47,6 +47,7 @@ void EventLoop::stop() noexcept
 	if (m_eventLoopThread.get_stop_token().stop_possible())
 	{
 		m_eventLoopThread.request_stop();
+		notifyNewEvent();
 		m_barrier->arrive_and_wait();
 	}
 }
@@ -103,7 +104,8 @@ void EventLoop::run(stop_token stopToken, const bool log, ostream &o)
 			const SleepDuration sleepDuration = getSleepDuration();
 			unique_lock eventNotifierGuard(m_eventNotifierMutex);
 			m_eventNotifier.wait_for(eventNotifierGuard, sleepDuration,
-									 [this] { return m_ptnEngine.getNewInputReceived(); });
+									 [this, &stopToken]
+									 { return stopToken.stop_requested() || m_ptnEngine.getNewInputReceived(); });
 		}
 	}
 	m_eventLoopThreadRunning = false;
-- 
2.43.0


From 1d5fa1b3e8121c7e2b7931b6152d3188879dcbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:53 +0000
Subject: [PATCH 13/29] fix: the event loop rests also with extreme sleep
 durations

Converting them to the resolution of the clock overflowed, and the loop
was busy instead of resting.
---
 PTN_Engine/EventLoop.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PTN_Engine/EventLoop.cpp b/PTN_Engine/EventLoop.cpp
index d36b2ca..a011a19 100755
--- a/PTN_Engine/EventLoop.cpp
+++ b/PTN_Engine/EventLoop.cpp
@@ -19,6 +19,7 @@
 #include "PTN_Engine/EventLoop.h"
 #include "PTN_Engine/IPTN_EngineEL.h"
 #include "PTN_Engine/PTN_Exception.h"
+#include <algorithm>
 #include <thread>
 
 namespace ptne
@@ -101,7 +102,8 @@ void EventLoop::run(stop_token stopToken, const bool log, ostream &o)
 	{
 		if (!m_ptnEngine.executeInt(log, o))
 		{
-			const SleepDuration sleepDuration = getSleepDuration();
+			// longer durations cannot be represented with the resolution of the clock
+			const SleepDuration sleepDuration = clamp(getSleepDuration(), SleepDuration(0), SleepDuration(24h));
 			unique_lock eventNotifierGuard(m_eventNotifierMutex);
 			m_eventNotifier.wait_for(eventNotifierGuard, sleepDuration,
 									 [this, &stopToken]
-- 
2.43.0


From cc94b40354e723ca98a01357dc9e7da15070e49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:53 +0000
Subject: [PATCH 14/29] fix: read the properties of a place under its lock

The running net changes the number of tokens meanwhile.
---
 PTN_Engine/Place.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PTN_Engine/Place.cpp b/PTN_Engine/Place.cpp
index f68b7c1..9d6e628 100644
--- a/PTN_Engine/Place.cpp
+++ b/PTN_Engine/Place.cpp
@@ -162,6 +162,7 @@ void Place::blockStartingOnEnterActions(const bool value)
 
 PlaceProperties Place::placeProperties() const
 {
+	shared_lock guard(m_mutex);
 	PlaceProperties placeProperties;
 	placeProperties.name = m_name;
 	placeProperties.onEnterActionFunctionName = m_onEnterActionName;
-- 
2.43.0


From 375cf837f3bf66fadb0d6d5c4d92a2af03e2536e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:54 +0000
Subject: [PATCH 15/29] fix: describing a transition does not lock its mutex
 recursively

With a shared mutex this is undefined, and a deadlock once the running
net waits to fire the transition.
---
 PTN_Engine/Transition.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/PTN_Engine/Transition.cpp b/PTN_Engine/Transition.cpp
index 0b77687..6ff2ccb 100755
--- a/PTN_Engine/Transition.cpp
+++ b/PTN_Engine/Transition.cpp
@@ -209,16 +209,16 @@ TransitionProperties Transition::getTransitionProperties() const
 		for (const auto &arc : arcs)
 		{
 			auto spPlace = lockWeakPtr(arc.place);
-			arcsProperties.emplace_back(arc.weight, spPlace->getName(), getName(), type);
+			arcsProperties.emplace_back(arc.weight, spPlace->getName(), m_name, type);
 		}
 		return arcsProperties;
 	};
 	transitionProperties.additionalConditions = getAdditionalConditions();
 
-	transitionProperties.activationArcs = getProperties(getActivationArcs(), ArcProperties::Type::ACTIVATION);
-	transitionProperties.destinationArcs = getProperties(getDestinationArcs(), ArcProperties::Type::DESTINATION);
-	transitionProperties.inhibitorArcs = getProperties(getInhibitorArcs(), ArcProperties::Type::INHIBITOR);
-	transitionProperties.name = getName();
+	transitionProperties.activationArcs = getProperties(m_activationArcs, ArcProperties::Type::ACTIVATION);
+	transitionProperties.destinationArcs = getProperties(m_destinationArcs, ArcProperties::Type::DESTINATION);
+	transitionProperties.inhibitorArcs = getProperties(m_inhibitorArcs, ArcProperties::Type::INHIBITOR);
+	transitionProperties.name = m_name;
 	transitionProperties.requireNoActionsInExecution = m_requireNoActionsInExecution;
 
 	return transitionProperties;
-- 
2.43.0


From 1074f914afbff5a7179081620e58afedb2d41b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:35 +0000
Subject: [PATCH 16/29] fix: changing the thread mode waits for actions without
 holding the engine's lock

An action of the job queue that used the engine meanwhile waited for that
lock, while the change of the mode waited for the action.
---
 PTN_Engine/PTN_EngineImp.cpp      | 7 +++++--
 PTN_Engine/PTN_EngineImp.h        | 8 ++++++--
 PTN_Engine/PTN_EngineImpProxy.cpp | 4 +++-
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/PTN_Engine/PTN_EngineImp.cpp b/PTN_Engine/PTN_EngineImp.cpp
index f4429b1..c5b6921 100755
--- a/PTN_Engine/PTN_EngineImp.cpp
+++ b/PTN_Engine/PTN_EngineImp.cpp
@@ -116,7 +116,8 @@ void PTN_EngineImp::incrementInputPlace(const string &place)
 	m_eventLoop.notifyNewEvent();
 }
 
-void PTN_EngineImp::setActionsThreadOption(const PTN_Engine::ACTIONS_THREAD_OPTION actionsThreadOption)
+shared_ptr<IActionsExecutor>
+PTN_EngineImp::setActionsThreadOption(const PTN_Engine::ACTIONS_THREAD_OPTION actionsThreadOption)
 {
 	if (isEventLoopRunning())
 	{
@@ -127,13 +128,15 @@ void PTN_EngineImp::setActionsThreadOption(const PTN_Engine::ACTIONS_THREAD_OPTI
 
 	if (m_actionsThreadOption == actionsThreadOption)
 	{
-		return;
+		return nullptr;
 	}
 
+	shared_ptr<IActionsExecutor> previousExecutor = m_actionsExecutor;
 	m_actionsExecutor = ActionsExecutorFactory::createExecutor(actionsThreadOption);
 	m_actionsThreadOption = actionsThreadOption;
 
 	m_places.setActionsExecutor(m_actionsExecutor);
+	return previousExecutor;
 }
 
 PTN_Engine::ACTIONS_THREAD_OPTION PTN_EngineImp::getActionsThreadOption() const
diff --git a/PTN_Engine/PTN_EngineImp.h b/PTN_Engine/PTN_EngineImp.h
index 143a4b9..953369c 100755
--- a/PTN_Engine/PTN_EngineImp.h
+++ b/PTN_Engine/PTN_EngineImp.h
@@ -136,8 +136,12 @@ public:
 
 	void removeArc(const ArcProperties &arcProperties) const;
 
-	//! Specify the thread where the actions should be run.
-	void setActionsThreadOption(const PTN_Engine::ACTIONS_THREAD_OPTION actionsThreadOption);
+	//!
+	//! \brief Specify the thread where the actions should be run.
+	//! \return The executor that has been replaced, which waits for the action being executed when released.
+	//!
+	std::shared_ptr<IActionsExecutor>
+	setActionsThreadOption(const PTN_Engine::ACTIONS_THREAD_OPTION actionsThreadOption);
 
 	//!
 	//! \brief Set the sleep duration of the event loop.
diff --git a/PTN_Engine/PTN_EngineImpProxy.cpp b/PTN_Engine/PTN_EngineImpProxy.cpp
index 0c8fad5..a637daa 100755
--- a/PTN_Engine/PTN_EngineImpProxy.cpp
+++ b/PTN_Engine/PTN_EngineImpProxy.cpp
@@ -139,8 +139,10 @@ bool PTN_Engine::PTN_EngineImpProxy::isEventLoopRunning() const
 
 void PTN_Engine::PTN_EngineImpProxy::setActionsThreadOption(const ACTIONS_THREAD_OPTION actionsThreadOption)
 {
+	// released after the lock, since the action it waits for may be using the engine
+	shared_ptr<IActionsExecutor> previousExecutor;
 	unique_lock guard(m_mutex);
-	m_ptnEngineImp.setActionsThreadOption(actionsThreadOption);
+	previousExecutor = m_ptnEngineImp.setActionsThreadOption(actionsThreadOption);
 }
 
 PTN_Engine::ACTIONS_THREAD_OPTION PTN_Engine::PTN_EngineImpProxy::getActionsThreadOption() const
-- 
2.43.0


From 151ee292aab3a3fe9b76b6f62c803b4a725b8e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:35 +0000
Subject: [PATCH 17/29] fix: destroying the engine waits for the running action
 before freeing places

The action of the job queue being executed may be using the engine.
---
 PTN_Engine/Executor/IActionsExecutor.h   | 6 ++++++
 PTN_Engine/Executor/JobQueueExecutor.cpp | 5 +++++
 PTN_Engine/Executor/JobQueueExecutor.h   | 2 ++
 PTN_Engine/PTN_EngineImp.cpp             | 3 +++
 4 files changed, 16 insertions(+)

diff --git a/PTN_Engine/Executor/IActionsExecutor.h b/PTN_Engine/Executor/IActionsExecutor.h
index 2f6a641..ff7ef67 100644
--- a/PTN_Engine/Executor/IActionsExecutor.h
+++ b/PTN_Engine/Executor/IActionsExecutor.h
@@ -55,6 +55,12 @@ class IActionsExecutor
 {
 public:
 	virtual ~IActionsExecutor() = default;
+
+	//! Waits for the action being executed, if the executor keeps track of it, and starts no other.
+	virtual void stop() noexcept
+	{
+	}
+
 	virtual void executeAction(const ActionFunction &action,
 							   const std::shared_ptr<std::atomic<size_t>> &counter) = 0;
 };
diff --git a/PTN_Engine/Executor/JobQueueExecutor.cpp b/PTN_Engine/Executor/JobQueueExecutor.cpp
index dc472df..86773c3 100644
--- a/PTN_Engine/Executor/JobQueueExecutor.cpp
+++ b/PTN_Engine/Executor/JobQueueExecutor.cpp
@@ -34,4 +34,9 @@ void JobQueueExecutor::executeAction(const ActionFunction &action, const shared_
 	m_jobQueue.addJob(f);
 }
 
+void JobQueueExecutor::stop() noexcept
+{
+	m_jobQueue.deactivate();
+}
+
 } // namespace ptne
diff --git a/PTN_Engine/Executor/JobQueueExecutor.h b/PTN_Engine/Executor/JobQueueExecutor.h
index f4d469e..c531bd1 100644
--- a/PTN_Engine/Executor/JobQueueExecutor.h
+++ b/PTN_Engine/Executor/JobQueueExecutor.h
@@ -30,6 +30,8 @@ public:
 	void executeAction(const ActionFunction &action,
 					   const std::shared_ptr<std::atomic<size_t>> &actionsInExecution) override;
 
+	void stop() noexcept override;
+
 private:
 	//! Job queue to dispatch actions.
 	JobQueue m_jobQueue;
diff --git a/PTN_Engine/PTN_EngineImp.cpp b/PTN_Engine/PTN_EngineImp.cpp
index c5b6921..3666a35 100755
--- a/PTN_Engine/PTN_EngineImp.cpp
+++ b/PTN_Engine/PTN_EngineImp.cpp
@@ -20,6 +20,7 @@
 
 #include "PTN_Engine/PTN_EngineImp.h"
 #include "PTN_Engine/Executor/ActionsExecutorFactory.h"
+#include "PTN_Engine/Executor/IActionsExecutor.h"
 #include "PTN_Engine/Utilities/LockWeakPtr.h"
 #include <algorithm>
 
@@ -38,6 +39,8 @@ PTN_EngineImp::PTN_EngineImp(PTN_Engine::ACTIONS_THREAD_OPTION actionsThreadOpti
 PTN_EngineImp::~PTN_EngineImp()
 {
 	stop();
+	// the action being executed may be using the places and transitions
+	m_actionsExecutor->stop();
 }
 
 void PTN_EngineImp::clearInputPlaces()
-- 
2.43.0


From 9812769ecce867494043612b855d3874a3353dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:31 +0000
Subject: [PATCH 18/29] fix: XML import reads numbers and flags exactly or
 rejects them

Counts above LONG_MAX were read as LONG_MAX, text that is not a number as
zero or as the number it starts with, and unknown flags as false.
---
 .../XML/src/XML/XML_FileImporter.cpp          | 61 +++++++++++--------
 1 file changed, 34 insertions(+), 27 deletions(-)

diff --git a/PTN_Engine/ImportExport/XML/src/XML/XML_FileImporter.cpp b/PTN_Engine/ImportExport/XML/src/XML/XML_FileImporter.cpp
index 4061133..abe733a 100644
--- a/PTN_Engine/ImportExport/XML/src/XML/XML_FileImporter.cpp
+++ b/PTN_Engine/ImportExport/XML/src/XML/XML_FileImporter.cpp
@@ -29,6 +29,35 @@ using namespace ptne;
 
 namespace
 {
+size_t toNumber(const string &v)
+{
+	size_t result{};
+	const char *end = v.data() + v.size();
+
+	if (auto [ptr, ec] = from_chars(v.data(), end, result); ec != errc() || ptr != end)
+	{
+		throw PTN_Exception("Could not convert from string to int: " + v);
+	}
+
+	return result;
+}
+
+bool toBool(const string &name, const string &v)
+{
+	if (v == "true")
+	{
+		return true;
+	}
+	else if (v == "false")
+	{
+		return false;
+	}
+	else
+	{
+		throw PTN_Exception("Invalid value for " + name + ": " + v);
+	}
+}
+
 string getAttributeValue(const xml_node &node, const string &attrName)
 {
 	return node.attribute(attrName.c_str()).value();
@@ -54,7 +83,7 @@ collectArcAttributes(const xml_node &transition, const string &attribute, const
 		const string weightStr(activationCondition.attribute("weight").value());
 		if (!string(activationCondition.attribute("weight").value()).empty())
 		{
-			weight = static_cast<size_t>(atol(weightStr.c_str()));
+			weight = toNumber(weightStr);
 		}
 
 		arcsProperties.emplace_back(weight, activationCondition.attribute("name").value(), activationConditionName,
@@ -72,35 +101,13 @@ T getNodeValue(const string &nodeName, const xml_node &xmlNode)
 template <>
 bool getNodeValue(const string &nodeName, const xml_node &xmlNode)
 {
-	const string v = xmlNode.child(nodeName.c_str()).attribute("value").value();
-	if (v == "true")
-	{
-		return true;
-	}
-	else if (v == "false")
-	{
-		return false;
-	}
-	else
-	{
-		throw PTN_Exception("Invalid value for " + nodeName + ": " + v);
-	}
+	return toBool(nodeName, getAttributeValue(xmlNode.child(nodeName.c_str()), "value"));
 }
 
 template <>
 size_t getNodeValue(const string &nodeName, const xml_node &xmlNode)
 {
-	const string v = xmlNode.child(nodeName.c_str()).attribute("value").value();
-
-	size_t result{};
-	auto [ptr, ec] = from_chars(v.data(), v.data() + v.size(), result);
-
-	if (ec != errc())
-	{
-		throw PTN_Exception("Could not convert from string to int");
-	}
-
-	return result;
+	return toNumber(getAttributeValue(xmlNode.child(nodeName.c_str()), "value"));
 }
 
 } // namespace
@@ -132,13 +139,13 @@ vector<PlaceProperties> XML_FileImporter::importPlaces() const
 		bool isInput = false;
 		if (const string isInputStr = getAttributeValue(place, "input"); !isInputStr.empty())
 		{
-			isInput = isInputStr == "true" ? true : false;
+			isInput = toBool("input", isInputStr);
 		}
 
 		size_t numberOfTokens = 0;
 		if (const string numberOfTokensStr = getAttributeValue(place, "tokens"); !numberOfTokensStr.empty())
 		{
-			numberOfTokens = static_cast<size_t>(atol(numberOfTokensStr.c_str()));
+			numberOfTokens = toNumber(numberOfTokensStr);
 		}
 
 		placeProperties.name = getAttributeValue(place, "name");
-- 
2.43.0


From d4c65e6708d65177a1f5e8fd87571796a9223a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:48 +0000
Subject: [PATCH 19/29] fix: an XML exporter can be used more than once

Further exports contained the nets exported before.
---
 PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp b/PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp
index bc4127d..afd48ff 100644
--- a/PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp
+++ b/PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp
@@ -31,6 +31,7 @@ XML_FileExporter::~XML_FileExporter() = default;
 void XML_FileExporter::_export(const PTN_Engine &ptnEngine, const string &filePath)
 {
 	m_filePath = filePath;
+	m_document.reset();
 	m_rootNode = m_document.append_child("PTN-Engine");
 	m_rootNode.append_attribute("version").set_value("3.0");
 	m_rootNode.append_attribute("format").set_value("1");
-- 
2.43.0


From bf3308ec98c983a57cc165024c144702dcbae91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:48 +0000
Subject: [PATCH 20/29] fix: XML export reports when the file cannot be written

---
 PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp b/PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp
index afd48ff..d2d212f 100644
--- a/PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp
+++ b/PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp
@@ -18,6 +18,7 @@
 
 #include "XML/XML_FileExporter.h"
 #include "PTN_Engine/PTN_Engine.h"
+#include "PTN_Engine/PTN_Exception.h"
 #include <pugixml.hpp>
 #include <vector>
 
@@ -101,7 +102,10 @@ void XML_FileExporter::exportTransition(const TransitionProperties &transitionPr
 
 void XML_FileExporter::saveFile() const
 {
-	m_document.save_file(m_filePath.c_str());
+	if (!m_document.save_file(m_filePath.c_str()))
+	{
+		throw PTN_Exception("Could not save " + m_filePath);
+	}
 }
 
 } // namespace ptne
-- 
2.43.0


From 45e0389006a2453a7efbcacc7d7bed8753faf20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:52 +0000
Subject: [PATCH 21/29] fix: the factorial example computes 0! as 1

---
 Examples/Factorial/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Examples/Factorial/main.cpp b/Examples/Factorial/main.cpp
index 38beab1..7ec4924 100755
--- a/Examples/Factorial/main.cpp
+++ b/Examples/Factorial/main.cpp
@@ -31,9 +31,9 @@ int main(int, char **)
 
 	ActionFunction compute = [&x, &result]()
 	{
-		result *= x;
 		if (x > 0)
 		{
+			result *= x;
 			--x;
 		}
 	};
-- 
2.43.0


From fb738e57308b2f17773f0445835fddb0a1156b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:22 +0000
Subject: [PATCH 22/29] fix: the elevator does not get stuck on a call from its
 current floor

---
 Examples/Elevator/Controller/ElevatorController.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Examples/Elevator/Controller/ElevatorController.cpp b/Examples/Elevator/Controller/ElevatorController.cpp
index 1555d94..81d961a 100755
--- a/Examples/Elevator/Controller/ElevatorController.cpp
+++ b/Examples/Elevator/Controller/ElevatorController.cpp
@@ -221,6 +221,8 @@ void ElevatorController::mergeGoingUpGTCurrent()
 void ElevatorController::mergeMinGoingUp()
 {
 	unique_lock l(m_mutex);
+	// the cabin is already on this floor, no transition takes it there
+	m_floorsWaitingToGoUp.erase(m_currentFloor);
 	if (m_floorsWaitingToGoUp.empty())
 	{
 		return;
@@ -236,6 +238,8 @@ void ElevatorController::mergeMinGoingUp()
 void ElevatorController::mergeMaxGoingDown()
 {
 	unique_lock l(m_mutex);
+	// the cabin is already on this floor, no transition takes it there
+	m_floorsWaitingToGoDown.erase(m_currentFloor);
 	if (m_floorsWaitingToGoDown.empty())
 	{
 		return;
-- 
2.43.0


From 80c53c5ac080b33a4691f9b6ab757d9dfbf16ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:09 +0000
Subject: [PATCH 23/29] fix: the elevator takes the arrival out of its list
 before processing the lists

---
 Examples/Elevator/Controller/ElevatorPetriNet.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Examples/Elevator/Controller/ElevatorPetriNet.cpp b/Examples/Elevator/Controller/ElevatorPetriNet.cpp
index d1b1862..2ae5d06 100755
--- a/Examples/Elevator/Controller/ElevatorPetriNet.cpp
+++ b/Examples/Elevator/Controller/ElevatorPetriNet.cpp
@@ -280,7 +280,9 @@ void ElevatorPetriNet::createSimulationTransitions()
 					   .activationArcs = { { .placeName = "RemoveFromListGU" } },
 					   .destinationArcs = { { .placeName = "ProcessLists" },
 											{ .placeName = "ArrivedDestination" },
-											{ .placeName = "Ready" } } });
+											{ .placeName = "Ready" } },
+					   // the arrival is taken out of the list before the lists are processed
+					   .requireNoActionsInExecution=true });
 
 	createTransition({ .name = "T16",
 					   .activationArcs = { { .placeName = "DecreaseFloor" } },
@@ -292,7 +294,9 @@ void ElevatorPetriNet::createSimulationTransitions()
 					   .activationArcs = { { .placeName = "RemoveFromListGD" } },
 					   .destinationArcs = { { .placeName = "ProcessLists" },
 											{ .placeName = "ArrivedDestination" },
-											{ .placeName = "Ready" } } });
+											{ .placeName = "Ready" } },
+					   // the arrival is taken out of the list before the lists are processed
+					   .requireNoActionsInExecution=true });
 }
 
 void ElevatorPetriNet::createArrivingFloorTransitions()
-- 
2.43.0


From bc3518fae83b39fb2807c6db2160f670df5adaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:46 +0000
Subject: [PATCH 24/29] fix: the elevator's menus refuse numbers that do not
 fit an int

stoi throws out_of_range for them, which ended the program.
---
 Examples/Elevator/main.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/Examples/Elevator/main.cpp b/Examples/Elevator/main.cpp
index 757f15a..3cf2816 100755
--- a/Examples/Elevator/main.cpp
+++ b/Examples/Elevator/main.cpp
@@ -57,6 +57,10 @@ void callElevatorUpMenu(ElevatorController &controller)
 			{
 				cout << "Invalid input" << endl;
 			}
+			catch (const out_of_range &)
+			{
+				cout << "Invalid input" << endl;
+			}
 		}
 
 	} while (!exit);
@@ -97,6 +101,10 @@ void callElevatorDownMenu(ElevatorController &controller)
 			{
 				cout << "Invalid input" << endl;
 			}
+			catch (const out_of_range &)
+			{
+				cout << "Invalid input" << endl;
+			}
 		}
 
 	} while (!exit);
@@ -137,6 +145,10 @@ void setDestinationMenu(ElevatorController &controller)
 			{
 				cout << "Invalid input" << endl;
 			}
+			catch (const out_of_range &)
+			{
+				cout << "Invalid input" << endl;
+			}
 		}
 
 	} while (!exit);
-- 
2.43.0


From dc88ebaa2d9b1943cfaf82ee0e1c250c85ba9c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:07 +0000
Subject: [PATCH 25/29] fix: the elevator's net is destroyed before what its
 actions use

Actions may still be running when the controller is destroyed.
---
 Examples/Elevator/Controller/ElevatorController.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Examples/Elevator/Controller/ElevatorController.h b/Examples/Elevator/Controller/ElevatorController.h
index 855e12a..155862d 100755
--- a/Examples/Elevator/Controller/ElevatorController.h
+++ b/Examples/Elevator/Controller/ElevatorController.h
@@ -62,9 +62,6 @@ private:
 
 	using PtrPetriNet = std::unique_ptr<IElevatorPetriNet>;
 
-	//! The state machine of the controller.
-	PtrPetriNet m_pPetriNet = nullptr;
-
 	//! Floor where the elevator currently is.
 	int m_currentFloor = 0;
 
@@ -83,6 +80,9 @@ private:
 	//! List of destinations that want to catch the elevator to go down.
 	std::unordered_set<int> m_floorsWaitingToGoDown;
 
+	//! The state machine of the controller. Destroyed first, since its actions use the other members.
+	PtrPetriNet m_pPetriNet = nullptr;
+
 	//! Merge set to m_destinations and delete the merged items.
 	void mergeToDestinations(std::unordered_set<int> &toAdd, const bool lessThan);
 
-- 
2.43.0


From 56bfc03e7df5d9eb03c72d8a76a420e46fbed62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:27 +0000
Subject: [PATCH 26/29] fix: an engine whose thread cannot be started is not
 left marked as running

---
 PTN_Engine/EventLoop.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/PTN_Engine/EventLoop.cpp b/PTN_Engine/EventLoop.cpp
index a011a19..a3e2e3b 100755
--- a/PTN_Engine/EventLoop.cpp
+++ b/PTN_Engine/EventLoop.cpp
@@ -73,7 +73,15 @@ void EventLoop::start(const bool log, ostream &o)
 		}
 		m_barrier = make_unique<barrier<>>(2);
 		m_eventLoopThreadRunning = true;
-		m_eventLoopThread = jthread(bind_front(&EventLoop::run, this), log, ref(o));
+		try
+		{
+			m_eventLoopThread = jthread(bind_front(&EventLoop::run, this), log, ref(o));
+		}
+		catch (...)
+		{
+			m_eventLoopThreadRunning = false;
+			throw;
+		}
 	}
 }
 
-- 
2.43.0


From a28e8b160a9613ee00a69d02ac99d48a42945e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:27 +0000
Subject: [PATCH 27/29] fix: a job queue without memory for its worker thread
 keeps its jobs

---
 PTN_Engine/JobQueue/JobQueue.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/PTN_Engine/JobQueue/JobQueue.cpp b/PTN_Engine/JobQueue/JobQueue.cpp
index b92eacc..d170acf 100755
--- a/PTN_Engine/JobQueue/JobQueue.cpp
+++ b/PTN_Engine/JobQueue/JobQueue.cpp
@@ -75,6 +75,10 @@ void JobQueue::launch()
 		{
 			m_isJobQueueRunning = false;
 		}
+		catch (const std::bad_alloc &)
+		{
+			m_isJobQueueRunning = false;
+		}
 	}
 }
 
-- 
2.43.0


From bbc412c3e21a2a6c2565adb30138a1331201c428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:03 +0000
Subject: [PATCH 28/29] fix: a function registered without enough memory does
 not leave its name behind

---
 PTN_Engine/ManagedContainer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PTN_Engine/ManagedContainer.h b/PTN_Engine/ManagedContainer.h
index 386c986..7c4cc99 100755
--- a/PTN_Engine/ManagedContainer.h
+++ b/PTN_Engine/ManagedContainer.h
@@ -21,6 +21,7 @@
 #include <mutex>
 #include <shared_mutex>
 #include <unordered_map>
+#include <utility>
 #include <vector>
 
 namespace ptne
@@ -60,7 +61,7 @@ public:
 			throw RepeatedFunctionException(name);
 		}
 
-		m_items[name] = item;
+		m_items.emplace(name, std::move(item));
 	}
 
 	//!
-- 
2.43.0


From 0fa9e8db0af48bb1bd623bb8e568c7191884e699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:30 +0000
Subject: [PATCH 29/29] fix: the printed state shows a place's whole name, also
 after a zero character

---
 PTN_Engine/PlacesManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PTN_Engine/PlacesManager.cpp b/PTN_Engine/PlacesManager.cpp
index c37bab6..71910b2 100755
--- a/PTN_Engine/PlacesManager.cpp
+++ b/PTN_Engine/PlacesManager.cpp
@@ -74,7 +74,7 @@ void PlacesManager::printState(ostream &o) const
 	o << "Place; Tokens" << endl;
 	for (const auto &[placeName, place] : m_items)
 	{
-		o << placeName.c_str() << ": " << place->getNumberOfTokens() << endl;
+		o << placeName << ": " << place->getNumberOfTokens() << endl;
 	}
 	o << endl << endl;
 }
-- 
2.43.0

