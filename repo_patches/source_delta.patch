From 8a78046a00398bfeeac70ad5485a543a163b2510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:19 +0000
Subject: [PATCH 01/14] fix: do not hold the place mutex while waiting to start
 an on-enter action

enterPlace slept on the block flag with its mutex locked, while the transition that
sets and clears that flag needs the same mutex to read the number of tokens: both
threads then waited for each other forever.
---
 PTN_Engine/Place.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PTN_Engine/Place.cpp b/PTN_Engine/Place.cpp
index 27a6f7b..f20f7f7 100644
--- a/PTN_Engine/Place.cpp
+++ b/PTN_Engine/Place.cpp
@@ -71,7 +71,10 @@ void Place::enterPlace(const size_t tokens)
 		// TO DO make this wait period configurable
 		// add a max wait time after which an exception
 		// is thrown.
+		// The place must stay accessible while waiting: the transition that blocks it still has to read it.
+		guard.unlock();
 		this_thread::sleep_for(100ms);
+		guard.lock();
 	}
 	lockWeakPtr(m_actionsExecutor)->executeAction(m_onEnterAction, m_onEnterActionsInExecution);
 }
-- 
2.43.0


From 2f5a0c98d1aaff6363274d8a7ab545b56e51ee62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:35 +0000
Subject: [PATCH 02/14] fix: release the blocked on-enter actions before
 entering the destination places

A transition that requires no actions in execution waited forever for itself when one of
its activation places, with an on-enter action, was also a destination. If a condition threw,
the places stayed blocked for good.
---
 PTN_Engine/Transition.cpp | 30 +++++++++++++++++++-----------
 PTN_Engine/Transition.h   |  3 ---
 2 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/PTN_Engine/Transition.cpp b/PTN_Engine/Transition.cpp
index 4ac0a5f..d022c1a 100755
--- a/PTN_Engine/Transition.cpp
+++ b/PTN_Engine/Transition.cpp
@@ -84,18 +84,32 @@ bool Transition::execute()
 
 	blockStartingOnEnterActions(true);
 
-	if (!isActive())
+	try
 	{
-		result = false;
+		if (!isActive())
+		{
+			result = false;
+		}
+		else
+		{
+			exitActivationPlaces();
+			result = true;
+		}
 	}
-	else
+	catch (...)
 	{
-		performTransit();
-		result = true;
+		blockStartingOnEnterActions(false);
+		throw;
 	}
 
+	// The actions of the destination places may start from here on. An activation place may be one of them.
 	blockStartingOnEnterActions(false);
 
+	if (result)
+	{
+		enterDestinationPlaces();
+	}
+
 	return result;
 }
 
@@ -363,12 +377,6 @@ bool Transition::noActionsInExecution() const
 	return true;
 }
 
-void Transition::performTransit() const
-{
-	exitActivationPlaces();
-	enterDestinationPlaces();
-}
-
 void Transition::exitActivationPlaces() const
 {
 	for (const Arc &activationArc : m_activationArcs)
diff --git a/PTN_Engine/Transition.h b/PTN_Engine/Transition.h
index 41f8146..df1d5c2 100755
--- a/PTN_Engine/Transition.h
+++ b/PTN_Engine/Transition.h
@@ -156,9 +156,6 @@ private:
 	//!
 	bool noActionsInExecution() const;
 
-	//! Moves the tokens from the inputs to the outputs.
-	void performTransit() const;
-
 	std::vector<Arc> m_activationArcs;
 
 	//! Pointers to the controller's functions that evaluate if the transition can be fired.
-- 
2.43.0


From 6c2acf03b0762d6d4a2453bc7950ec50066134ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:51 +0000
Subject: [PATCH 03/14] fix: reject a firing that would overflow a destination
 place before moving tokens

The overflow was only noticed in the destination place, when the tokens of the activation
places had already been removed.
---
 PTN_Engine/Transition.cpp | 23 +++++++++++++++++++++++
 PTN_Engine/Transition.h   |  3 +++
 2 files changed, 26 insertions(+)

diff --git a/PTN_Engine/Transition.cpp b/PTN_Engine/Transition.cpp
index d022c1a..9f1834d 100755
--- a/PTN_Engine/Transition.cpp
+++ b/PTN_Engine/Transition.cpp
@@ -25,6 +25,7 @@
 #include "PTN_Engine/Utilities/LockWeakPtr.h"
 #include <algorithm>
 #include <array>
+#include <limits>
 #include <mutex>
 #include <vector>
 
@@ -92,6 +93,8 @@ bool Transition::execute()
 		}
 		else
 		{
+			// must be known before any token moves
+			checkDestinationPlacesOverflow();
 			exitActivationPlaces();
 			result = true;
 		}
@@ -377,6 +380,26 @@ bool Transition::noActionsInExecution() const
 	return true;
 }
 
+void Transition::checkDestinationPlacesOverflow() const
+{
+	for (const Arc &destinationArc : m_destinationArcs)
+	{
+		SharedPtrPlace spPlace = lockWeakPtr(destinationArc.place);
+		size_t tokens = spPlace->getNumberOfTokens();
+
+		auto samePlace = [&spPlace](const Arc &arc) { return lockWeakPtr(arc.place) == spPlace; };
+		if (auto it = ranges::find_if(m_activationArcs, samePlace); it != m_activationArcs.cend())
+		{
+			tokens -= it->weight;
+		}
+
+		if (destinationArc.weight > numeric_limits<size_t>::max() - tokens)
+		{
+			throw OverflowException(destinationArc.weight);
+		}
+	}
+}
+
 void Transition::exitActivationPlaces() const
 {
 	for (const Arc &activationArc : m_activationArcs)
diff --git a/PTN_Engine/Transition.h b/PTN_Engine/Transition.h
index df1d5c2..ed775c7 100755
--- a/PTN_Engine/Transition.h
+++ b/PTN_Engine/Transition.h
@@ -138,6 +138,9 @@ private:
 	//! Removes the tokens from the activation places.
 	void exitActivationPlaces() const;
 
+	//! Throws an OverflowException if firing would overflow a destination place.
+	void checkDestinationPlacesOverflow() const;
+
 	//!
 	//! \brief Evaluates if the transition can be fired.
 	//! \return true if can be fired, false if it cannot.
-- 
2.43.0


From cd695a3d44ed6605fc9779e170b406a0de9fd8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:15 +0000
Subject: [PATCH 04/14] fix: add or remove both arcs of a bidirectional arc, or
 none

When only the destination arc already existed (or was missing), addArc (removeArc) threw
after having added (removed) the activation arc.
---
 PTN_Engine/Transition.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/PTN_Engine/Transition.cpp b/PTN_Engine/Transition.cpp
index 9f1834d..5fdb233 100755
--- a/PTN_Engine/Transition.cpp
+++ b/PTN_Engine/Transition.cpp
@@ -235,7 +235,7 @@ void Transition::addArc(const shared_ptr<Place> &place, const ArcProperties::Typ
 {
 	unique_lock guard(m_mutex);
 
-	auto addArcTo = [&place, weight](auto &placesContainer)
+	auto checkNotIn = [&place](const auto &placesContainer)
 	{
 		auto sameNameAs = [&place](const auto &arc)
 		{ return lockWeakPtr(arc.place)->getName() == place->getName(); };
@@ -244,6 +244,11 @@ void Transition::addArc(const shared_ptr<Place> &place, const ArcProperties::Typ
 		{
 			throw PTN_Exception("Arc already exists");
 		}
+	};
+
+	auto addArcTo = [&place, weight, &checkNotIn](auto &placesContainer)
+	{
+		checkNotIn(placesContainer);
 		placesContainer.push_back({ place, weight });
 	};
 
@@ -261,6 +266,7 @@ void Transition::addArc(const shared_ptr<Place> &place, const ArcProperties::Typ
 	}
 	case BIDIRECTIONAL:
 	{
+		checkNotIn(m_destinationArcs);
 		addArcTo(m_activationArcs);
 		addArcTo(m_destinationArcs);
 		break;
@@ -282,22 +288,22 @@ void Transition::removeArc(const shared_ptr<Place> &place, const ArcProperties::
 {
 	unique_lock guard(m_mutex);
 
-	auto removePlaceFrom = [&place](auto &placesContainer)
+	auto findPlaceIn = [&place](auto &placesContainer)
 	{
 		auto sameNameAs = [&place](const auto &arc)
 		{ return lockWeakPtr(arc.place)->getName() == place->getName(); };
 
 		auto it = ranges::find_if(placesContainer, sameNameAs);
-		if (it != placesContainer.cend())
-		{
-			placesContainer.erase(it);
-		}
-		else
+		if (it == placesContainer.cend())
 		{
 			throw PTN_Exception("Cannot remove palce " + place->getName());
 		}
+		return it;
 	};
 
+	auto removePlaceFrom = [&findPlaceIn](auto &placesContainer)
+	{ placesContainer.erase(findPlaceIn(placesContainer)); };
+
 	using enum ArcProperties::Type;
 	switch (type)
 	{
@@ -312,6 +318,7 @@ void Transition::removeArc(const shared_ptr<Place> &place, const ArcProperties::
 	}
 	case BIDIRECTIONAL:
 	{
+		findPlaceIn(m_destinationArcs);
 		removePlaceFrom(m_activationArcs);
 		removePlaceFrom(m_destinationArcs);
 		break;
-- 
2.43.0


From 903c4c82bdbbda1523626c2e82c0744b60c01ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:15 +0000
Subject: [PATCH 05/14] fix: reject arcs of weight 0 in Transition::addArc

The constructor rejects them. An activation arc of weight 0 removes every token of its place
when the transition fires, and a destination arc of weight 0 makes it throw half way.
---
 PTN_Engine/Transition.cpp | 5 +++++
 PTN_Engine/Transition.h   | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/PTN_Engine/Transition.cpp b/PTN_Engine/Transition.cpp
index 5fdb233..28bf880 100755
--- a/PTN_Engine/Transition.cpp
+++ b/PTN_Engine/Transition.cpp
@@ -235,6 +235,11 @@ void Transition::addArc(const shared_ptr<Place> &place, const ArcProperties::Typ
 {
 	unique_lock guard(m_mutex);
 
+	if (weight == 0)
+	{
+		throw ZeroValueWeightException();
+	}
+
 	auto checkNotIn = [&place](const auto &placesContainer)
 	{
 		auto sameNameAs = [&place](const auto &arc)
diff --git a/PTN_Engine/Transition.h b/PTN_Engine/Transition.h
index ed775c7..4dfacd0 100755
--- a/PTN_Engine/Transition.h
+++ b/PTN_Engine/Transition.h
@@ -69,7 +69,7 @@ public:
 	Transition &operator=(Transition &) = delete;
 	Transition &operator=(Transition &&) = delete;
 
-	void addArc(const std::shared_ptr<Place> &place, const ArcProperties::Type type, const size_t weight = 0);
+	void addArc(const std::shared_ptr<Place> &place, const ArcProperties::Type type, const size_t weight = 1);
 
 	//!
 	//! Evaluate the activation places and transit the tokens if possible.
-- 
2.43.0


From a49d0acf317e10ead3c6fabbe7b4da36bc1ff895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:15 +0000
Subject: [PATCH 06/14] fix: do not lock the transition mutex again in
 getTransitionProperties

Locking a shared_mutex twice in a thread is undefined behaviour, and deadlocks when a writer
queues up between the two.
---
 PTN_Engine/Transition.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/PTN_Engine/Transition.cpp b/PTN_Engine/Transition.cpp
index 28bf880..fedb0a3 100755
--- a/PTN_Engine/Transition.cpp
+++ b/PTN_Engine/Transition.cpp
@@ -216,16 +216,16 @@ TransitionProperties Transition::getTransitionProperties() const
 		for (const auto &arc : arcs)
 		{
 			auto spPlace = lockWeakPtr(arc.place);
-			arcsProperties.emplace_back(arc.weight, spPlace->getName(), getName(), type);
+			arcsProperties.emplace_back(arc.weight, spPlace->getName(), m_name, type);
 		}
 		return arcsProperties;
 	};
 	transitionProperties.additionalConditions = getAdditionalConditions();
 
-	transitionProperties.activationArcs = getProperties(getActivationArcs(), ArcProperties::Type::ACTIVATION);
-	transitionProperties.destinationArcs = getProperties(getDestinationArcs(), ArcProperties::Type::DESTINATION);
-	transitionProperties.inhibitorArcs = getProperties(getInhibitorArcs(), ArcProperties::Type::INHIBITOR);
-	transitionProperties.name = getName();
+	transitionProperties.activationArcs = getProperties(m_activationArcs, ArcProperties::Type::ACTIVATION);
+	transitionProperties.destinationArcs = getProperties(m_destinationArcs, ArcProperties::Type::DESTINATION);
+	transitionProperties.inhibitorArcs = getProperties(m_inhibitorArcs, ArcProperties::Type::INHIBITOR);
+	transitionProperties.name = m_name;
 	transitionProperties.requireNoActionsInExecution = m_requireNoActionsInExecution;
 
 	return transitionProperties;
-- 
2.43.0


From 9352adc7f9f920646f6af5c9b25b0200d3926709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:15 +0000
Subject: [PATCH 07/14] fix: read the number of tokens under the place mutex in
 placeProperties

The event loop may be changing it at the same time.
---
 PTN_Engine/Place.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PTN_Engine/Place.cpp b/PTN_Engine/Place.cpp
index f20f7f7..55a8b7e 100644
--- a/PTN_Engine/Place.cpp
+++ b/PTN_Engine/Place.cpp
@@ -163,6 +163,7 @@ void Place::blockStartingOnEnterActions(const bool value)
 
 PlaceProperties Place::placeProperties() const
 {
+	shared_lock guard(m_mutex);
 	PlaceProperties placeProperties;
 	placeProperties.name = m_name;
 	placeProperties.onEnterActionFunctionName = m_onEnterActionName;
-- 
2.43.0


From 64d3b5955d73dae4dade4549a085cda805aa96b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:15 +0000
Subject: [PATCH 08/14] fix: do not join a job queue worker thread that was
 already joined

stop_possible() stays true after the join, so that a second deactivate() terminated the program.
---
 PTN_Engine/JobQueue/JobQueue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PTN_Engine/JobQueue/JobQueue.cpp b/PTN_Engine/JobQueue/JobQueue.cpp
index bde84e0..233ce52 100755
--- a/PTN_Engine/JobQueue/JobQueue.cpp
+++ b/PTN_Engine/JobQueue/JobQueue.cpp
@@ -44,7 +44,7 @@ void JobQueue::deactivate() noexcept
 	{
 		return;
 	}
-	if (m_workerThread.get_stop_token().stop_possible())
+	if (m_workerThread.joinable())
 	{
 		m_workerThread.request_stop();
 		m_workerThread.join();
-- 
2.43.0


From 0b7fed5488f2de87ae53719491e69ad5ce226347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:15 +0000
Subject: [PATCH 09/14] fix: do not hold the sleep duration mutex while the
 event loop sleeps

setSleepDuration could block for as long as the event loop found nothing to do.
---
 PTN_Engine/EventLoop.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PTN_Engine/EventLoop.cpp b/PTN_Engine/EventLoop.cpp
index f1b7028..d66acbf 100755
--- a/PTN_Engine/EventLoop.cpp
+++ b/PTN_Engine/EventLoop.cpp
@@ -95,9 +95,9 @@ void EventLoop::run(stop_token stopToken, const bool log, ostream &o)
 	{
 		if (!m_ptnEngine.executeInt(log, o))
 		{
-			shared_lock lock(m_sleepDurationMutex);
+			const auto sleepDuration = getSleepDuration();
 			unique_lock eventNotifierGuard(m_eventNotifierMutex);
-			m_eventNotifier.wait_for(eventNotifierGuard, m_sleepDuration,
+			m_eventNotifier.wait_for(eventNotifierGuard, sleepDuration,
 									 [this] { return m_ptnEngine.getNewInputReceived(); });
 		}
 	}
-- 
2.43.0


From 4b7695d55e859eaebffc2d73bbf89b3212156b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:00 +0000
Subject: [PATCH 10/14] fix: import token counts and weights as the unsigned
 numbers that are exported

atol turned 2^63 and above into 2^63 - 1, and accepted text that is no number (as 0) or
that goes on after it.
---
 .../XML/src/XML/XML_FileImporter.cpp          | 28 +++++++++++--------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/PTN_Engine/ImportExport/XML/src/XML/XML_FileImporter.cpp b/PTN_Engine/ImportExport/XML/src/XML/XML_FileImporter.cpp
index 4061133..1774f6f 100644
--- a/PTN_Engine/ImportExport/XML/src/XML/XML_FileImporter.cpp
+++ b/PTN_Engine/ImportExport/XML/src/XML/XML_FileImporter.cpp
@@ -29,6 +29,19 @@ using namespace ptne;
 
 namespace
 {
+size_t toSizeT(const string &v)
+{
+	size_t result{};
+	auto [ptr, ec] = from_chars(v.data(), v.data() + v.size(), result);
+
+	if (ec != errc() || ptr != v.data() + v.size())
+	{
+		throw PTN_Exception("Could not convert from string to int");
+	}
+
+	return result;
+}
+
 string getAttributeValue(const xml_node &node, const string &attrName)
 {
 	return node.attribute(attrName.c_str()).value();
@@ -54,7 +67,7 @@ collectArcAttributes(const xml_node &transition, const string &attribute, const
 		const string weightStr(activationCondition.attribute("weight").value());
 		if (!string(activationCondition.attribute("weight").value()).empty())
 		{
-			weight = static_cast<size_t>(atol(weightStr.c_str()));
+			weight = toSizeT(weightStr);
 		}
 
 		arcsProperties.emplace_back(weight, activationCondition.attribute("name").value(), activationConditionName,
@@ -91,16 +104,7 @@ template <>
 size_t getNodeValue(const string &nodeName, const xml_node &xmlNode)
 {
 	const string v = xmlNode.child(nodeName.c_str()).attribute("value").value();
-
-	size_t result{};
-	auto [ptr, ec] = from_chars(v.data(), v.data() + v.size(), result);
-
-	if (ec != errc())
-	{
-		throw PTN_Exception("Could not convert from string to int");
-	}
-
-	return result;
+	return toSizeT(v);
 }
 
 } // namespace
@@ -138,7 +142,7 @@ vector<PlaceProperties> XML_FileImporter::importPlaces() const
 		size_t numberOfTokens = 0;
 		if (const string numberOfTokensStr = getAttributeValue(place, "tokens"); !numberOfTokensStr.empty())
 		{
-			numberOfTokens = static_cast<size_t>(atol(numberOfTokensStr.c_str()));
+			numberOfTokens = toSizeT(numberOfTokensStr);
 		}
 
 		placeProperties.name = getAttributeValue(place, "name");
-- 
2.43.0


From ccfd38f484808bfe0c493b1c59ddc65b415c6d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:00 +0000
Subject: [PATCH 11/14] fix: report an export that could not be written

---
 PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp b/PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp
index bc4127d..88c5e94 100644
--- a/PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp
+++ b/PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp
@@ -18,6 +18,7 @@
 
 #include "XML/XML_FileExporter.h"
 #include "PTN_Engine/PTN_Engine.h"
+#include "PTN_Engine/PTN_Exception.h"
 #include <pugixml.hpp>
 #include <vector>
 
@@ -100,7 +101,10 @@ void XML_FileExporter::exportTransition(const TransitionProperties &transitionPr
 
 void XML_FileExporter::saveFile() const
 {
-	m_document.save_file(m_filePath.c_str());
+	if (!m_document.save_file(m_filePath.c_str()))
+	{
+		throw PTN_Exception("Could not save file " + m_filePath);
+	}
 }
 
 } // namespace ptne
-- 
2.43.0


From 264d31d4b4944dbde5a7821f887f47528913ce84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:00 +0000
Subject: [PATCH 12/14] fix: start every export from an empty document

A second export with the same exporter appended its net to the first one, and importing the
file gave the first net again.
---
 PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp b/PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp
index 88c5e94..0694faf 100644
--- a/PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp
+++ b/PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp
@@ -32,6 +32,7 @@ XML_FileExporter::~XML_FileExporter() = default;
 void XML_FileExporter::_export(const PTN_Engine &ptnEngine, const string &filePath)
 {
 	m_filePath = filePath;
+	m_document.reset();
 	m_rootNode = m_document.append_child("PTN-Engine");
 	m_rootNode.append_attribute("version").set_value("3.0");
 	m_rootNode.append_attribute("format").set_value("1");
-- 
2.43.0


From 88391bcbdf418708fd022baa0baae7e76d566ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:00 +0000
Subject: [PATCH 13/14] fix: wait for the previous event loop thread before
 replacing its barrier

stop() returns as soon as both sides arrived, when the thread may still be using the barrier.
---
 PTN_Engine/EventLoop.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/PTN_Engine/EventLoop.cpp b/PTN_Engine/EventLoop.cpp
index d66acbf..e63c3b4 100755
--- a/PTN_Engine/EventLoop.cpp
+++ b/PTN_Engine/EventLoop.cpp
@@ -64,6 +64,11 @@ void EventLoop::start(const bool log, ostream &o)
 	}
 	else
 	{
+		// the previous run may still be leaving the barrier
+		if (m_eventLoopThread.joinable())
+		{
+			m_eventLoopThread.join();
+		}
 		m_barrier = make_unique<barrier<>>(2);
 		m_eventLoopThreadRunning = true;
 		m_eventLoopThread = jthread(bind_front(&EventLoop::run, this), log, ref(o));
-- 
2.43.0


From 3527029735292e631b49c30ff6d745362c690f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:19 +0000
Subject: [PATCH 14/14] fix: deactivate a job queue before joining its worker

---
 PTN_Engine/JobQueue/JobQueue.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/PTN_Engine/JobQueue/JobQueue.cpp b/PTN_Engine/JobQueue/JobQueue.cpp
index 233ce52..15bc9ba 100755
--- a/PTN_Engine/JobQueue/JobQueue.cpp
+++ b/PTN_Engine/JobQueue/JobQueue.cpp
@@ -40,16 +40,20 @@ void JobQueue::activate()
 
 void JobQueue::deactivate() noexcept
 {
-	if (!m_isJobQueueActive)
 	{
-		return;
+		// from here on, no job added by another thread can launch a new worker
+		lock_guard l(m_jobQueueMutex);
+		if (!m_isJobQueueActive)
+		{
+			return;
+		}
+		m_isJobQueueActive = false;
 	}
 	if (m_workerThread.joinable())
 	{
 		m_workerThread.request_stop();
 		m_workerThread.join();
 	}
-	m_isJobQueueActive = false;
 }
 
 bool JobQueue::isActive() const
-- 
2.43.0

