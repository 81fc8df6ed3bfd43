From 0a9b1910bf7b896f4e3c4ed6e6112629e44676a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:27 +0000
Subject: [PATCH 01/37] fix: look up connections departing after the cached
 hours without reading past the cache

A query at hour 32 indexed one past the 32-entry forward iterator cache
(undefined behaviour), and later hours never found any connection.
---
 src/connection_set.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/connection_set.cpp b/src/connection_set.cpp
index 13c04b5..a4b9578 100644
--- a/src/connection_set.cpp
+++ b/src/connection_set.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include "connection_set.hpp"
 #include "spdlog/spdlog.h"
 #include "connection.hpp"
@@ -10,8 +11,14 @@ namespace TrRouting {
 
   std::vector<std::reference_wrapper<const Connection>>::const_iterator ConnectionSet::getForwardConnectionsBeginAtDepartureHour(int hour) const
   {
-    if (hour > CONNECTION_ITERATOR_CACHE_END_HOUR || hour  < CONNECTION_ITERATOR_CACHE_BEGIN_HOUR) {
+    if (hour < CONNECTION_ITERATOR_CACHE_BEGIN_HOUR) {
       return forwardConnections.cend();
+    } else if (hour > CONNECTION_ITERATOR_CACHE_END_HOUR - 1) {
+      // Not in the cache, look for the first connection at or after this hour
+      return std::lower_bound(forwardConnections.cbegin(), forwardConnections.cend(), hour,
+                              [](const std::reference_wrapper<const Connection> & connection, int beginHour) {
+                                return connection.get().getDepartureTime() / 3600 < beginHour;
+                              });
     }
 
     return forwardConnectionsBeginIteratorCache[hour];
-- 
2.43.0


From 4f3673e61daf654aaab14588f6a9e790c1d67cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:31 +0000
Subject: [PATCH 02/37] fix: bound the forward connections cache to its 32
 hours

A (corrupt) departure time near the integer maximum made the cache grow until
currentHour * 3600 overflowed, and then forever.
---
 src/connection_set.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/connection_set.cpp b/src/connection_set.cpp
index a4b9578..bf5b2fb 100644
--- a/src/connection_set.cpp
+++ b/src/connection_set.cpp
@@ -47,7 +47,7 @@ namespace TrRouting {
          ite++) {
       // We can have a gap of multiple hours between 2 connections, so the current iterator
       // can be valid for multiple hour slots
-      while ((*ite).get().getDepartureTime() >= currentHour * 3600) {
+      while (currentHour < CONNECTION_ITERATOR_CACHE_END_HOUR && (*ite).get().getDepartureTime() >= currentHour * 3600) {
         forwardConnectionsBeginIteratorCache.push_back(ite);
         currentHour++;
       }
-- 
2.43.0


From 66a98dfea89b751648825c68cc2cb14a5a1f7569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:36 +0000
Subject: [PATCH 03/37] fix: do not truncate the minimum waiting time to 16
 bits

A min_waiting_time above 32767 s wrapped to a small or negative value, so
routes were returned that do not respect it.
---
 connection_scan_algorithm/src/forward_calculation.cpp | 4 ++--
 connection_scan_algorithm/src/reverse_calculation.cpp | 8 ++++----
 include/connection.hpp                                | 2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/connection_scan_algorithm/src/forward_calculation.cpp b/connection_scan_algorithm/src/forward_calculation.cpp
index 2251bc8..5a5b4a2 100644
--- a/connection_scan_algorithm/src/forward_calculation.cpp
+++ b/connection_scan_algorithm/src/forward_calculation.cpp
@@ -18,7 +18,7 @@ namespace TrRouting
     int   nodeDepartureTentativeTime      {MAX_INT};
     int   connectionDepartureTime         {-1};
     int   connectionArrivalTime           {-1};
-    short connectionMinWaitingTimeSeconds {-1};
+    int   connectionMinWaitingTimeSeconds {-1};
     //long long   footpathsRangeStart       {-1};
     //long long   footpathsRangeEnd         {-1};
     int   footpathIndex                   {-1};
@@ -209,7 +209,7 @@ namespace TrRouting
     int   nodeDepartureTentativeTime      {MAX_INT};
     int   connectionDepartureTime         {-1};
     int   connectionArrivalTime           {-1};
-    short connectionMinWaitingTimeSeconds {-1};
+    int   connectionMinWaitingTimeSeconds {-1};
     //long long   footpathsRangeStart       {-1};
     //long long   footpathsRangeEnd         {-1};
     int   footpathIndex                   {-1};
diff --git a/connection_scan_algorithm/src/reverse_calculation.cpp b/connection_scan_algorithm/src/reverse_calculation.cpp
index 8a1d20c..e99f5fb 100644
--- a/connection_scan_algorithm/src/reverse_calculation.cpp
+++ b/connection_scan_algorithm/src/reverse_calculation.cpp
@@ -19,8 +19,8 @@ namespace TrRouting
     std::optional<std::reference_wrapper<const Connection>> tripExitConnection;
     int  connectionDepartureTime          {-1};
     int  connectionArrivalTime            {-1};
-    short connectionMinWaitingTimeSeconds {-1};
-    short journeyConnectionMinWaitingTimeSeconds {-1};
+    int  connectionMinWaitingTimeSeconds {-1};
+    int  journeyConnectionMinWaitingTimeSeconds {-1};
     //long long  footpathsRangeStart        {-1};
     //long long  footpathsRangeEnd          {-1};
     int  footpathIndex                    {-1};
@@ -228,8 +228,8 @@ namespace TrRouting
     std::optional<std::reference_wrapper<const Connection>> tripExitConnection;
     int  connectionDepartureTime          {-1};
     int  connectionArrivalTime            {-1};
-    short connectionMinWaitingTimeSeconds {-1};
-    short journeyConnectionMinWaitingTimeSeconds {-1};
+    int  connectionMinWaitingTimeSeconds {-1};
+    int  journeyConnectionMinWaitingTimeSeconds {-1};
     //long long  footpathsRangeStart        {-1};
     //long long  footpathsRangeEnd          {-1};
     int  footpathIndex                    {-1};
diff --git a/include/connection.hpp b/include/connection.hpp
index 1c6adde..53fb85c 100644
--- a/include/connection.hpp
+++ b/include/connection.hpp
@@ -42,7 +42,7 @@ namespace TrRouting
     int getSequenceInTrip() const {return sequenceInTrip;}
     bool canTransferSameLine() const {return canTransferSameLineValue;}
     short getMinWaitingTime() const {return minWaitingTimeSeconds;}
-    short getMinWaitingTimeOrDefault(short defaultMinWaitingTime) const {
+    int getMinWaitingTimeOrDefault(int defaultMinWaitingTime) const {
       if (minWaitingTimeSeconds >= 0) {
         return minWaitingTimeSeconds;
       } else {
-- 
2.43.0


From 27e0f705d62ac9061285a373c65daacd3d6ea17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:51 +0000
Subject: [PATCH 04/37] fix: do not underflow the departure time with a huge
 minimum waiting time

With min_waiting_time near the integer maximum, departure - access - waiting
wrapped to a large positive time and an impossible route was returned.
---
 connection_scan_algorithm/src/reverse_calculation.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/connection_scan_algorithm/src/reverse_calculation.cpp b/connection_scan_algorithm/src/reverse_calculation.cpp
index e99f5fb..66774bd 100644
--- a/connection_scan_algorithm/src/reverse_calculation.cpp
+++ b/connection_scan_algorithm/src/reverse_calculation.cpp
@@ -200,7 +200,9 @@ namespace TrRouting
           const NodeTimeDistance & access = nodesAccess.at(accessFootpath.node.uid);
           int accessEnterConnectionMinWaitingTimeSeconds = accessEnterConnection.value().get().getMinWaitingTimeOrDefault(parameters.getMinWaitingTimeSeconds());
 
-          int accessNodeDepartureTime                    = accessEnterConnection.value().get().getDepartureTime() - access.time - accessEnterConnectionMinWaitingTimeSeconds;
+          // compare before subtracting, a huge minimum waiting time would underflow
+          bool accessNodeDepartureTimeIsValid            = accessEnterConnection.value().get().getDepartureTime() - accessEnterConnectionMinWaitingTimeSeconds >= access.time;
+          int accessNodeDepartureTime                    = accessNodeDepartureTimeIsValid ? accessEnterConnection.value().get().getDepartureTime() - access.time - accessEnterConnectionMinWaitingTimeSeconds : -1;
           if ((accessNodeDepartureTime >= 0) &&
               (arrivalTimeSeconds - accessNodeDepartureTime <= parameters.getMaxTotalTravelTimeSeconds()) &&
               (accessNodeDepartureTime > bestDepartureTime) &&
-- 
2.43.0


From b4015c686c5a8a577aaaebc7098d138c8d343a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:21 +0000
Subject: [PATCH 05/37] fix: keep the boarding that allows the latest arrival
 at its stop

The departure time of the kept boarding was compared with the departure minus
the minimum waiting time of the candidate, so a later boarding (by less than
the minimum waiting time) never replaced an earlier one found first.
---
 connection_scan_algorithm/src/reverse_calculation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/connection_scan_algorithm/src/reverse_calculation.cpp b/connection_scan_algorithm/src/reverse_calculation.cpp
index 66774bd..1e5b4df 100644
--- a/connection_scan_algorithm/src/reverse_calculation.cpp
+++ b/connection_scan_algorithm/src/reverse_calculation.cpp
@@ -149,7 +149,7 @@ namespace TrRouting
                      //TODO Really not sure this is equivalent
                      reverseAccessJourneysSteps.count(transferableNode.node.uid) == 0
                      || 
-                     reverseAccessJourneysSteps.at(transferableNode.node.uid).getFinalEnterConnection().value().get().getDepartureTime() <= connectionDepartureTime - connectionMinWaitingTimeSeconds
+                     reverseAccessJourneysSteps.at(transferableNode.node.uid).getFinalEnterConnection().value().get().getDepartureTime() - reverseAccessJourneysSteps.at(transferableNode.node.uid).getFinalEnterConnection().value().get().getMinWaitingTimeOrDefault(parameters.getMinWaitingTimeSeconds()) <= connectionDepartureTime - connectionMinWaitingTimeSeconds
                     )
                   )
                   {                    
@@ -348,7 +348,7 @@ namespace TrRouting
                      //TODO Really not sure this is equivalent
                      reverseAccessJourneysSteps.count(transferableNode.node.uid) == 0
                      ||
-                     reverseAccessJourneysSteps.at(transferableNode.node.uid).getFinalEnterConnection().value().get().getDepartureTime() <= connectionDepartureTime - connectionMinWaitingTimeSeconds
+                     reverseAccessJourneysSteps.at(transferableNode.node.uid).getFinalEnterConnection().value().get().getDepartureTime() - reverseAccessJourneysSteps.at(transferableNode.node.uid).getFinalEnterConnection().value().get().getMinWaitingTimeOrDefault(parameters.getMinWaitingTimeSeconds()) <= connectionDepartureTime - connectionMinWaitingTimeSeconds
                     )
                   )
                   {
-- 
2.43.0


From 70405cf7e05dce342162648724995f6311b7e17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:36 +0000
Subject: [PATCH 06/37] fix: account for the minimum waiting time before
 pruning the reverse scan

Stops that can be left later with a shorter minimum waiting time (transferable
modes) were pruned because the bound ignored the waiting time at the first
reached access stop.
---
 connection_scan_algorithm/src/reverse_calculation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/connection_scan_algorithm/src/reverse_calculation.cpp b/connection_scan_algorithm/src/reverse_calculation.cpp
index 1e5b4df..e2ca4d2 100644
--- a/connection_scan_algorithm/src/reverse_calculation.cpp
+++ b/connection_scan_algorithm/src/reverse_calculation.cpp
@@ -117,7 +117,7 @@ namespace TrRouting
               if (!reachedAtLeastOneAccessNode &&  nodeDepartureInNodesAccessIte != nodesAccess.end() &&  nodeDepartureInNodesAccessIte->second.time != -1) // check if the departure node is accessable
               {
                 reachedAtLeastOneAccessNode      = true;
-                tentativeAccessNodeDepartureTime = connectionDepartureTime;
+                tentativeAccessNodeDepartureTime = connectionDepartureTime - connectionMinWaitingTimeSeconds;
 
               }
               footpathIndex = 0;
-- 
2.43.0


From 749c2dad3fbbc0d7ee705cfb575f04f4187334e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:17 +0000
Subject: [PATCH 07/37] fix: apply max_first_waiting_time even when it is below
 the minimum waiting time

The reverse pass considered such a limit as absent and returned routes waiting
longer than allowed at the first stop.
---
 connection_scan_algorithm/src/reverse_calculation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/connection_scan_algorithm/src/reverse_calculation.cpp b/connection_scan_algorithm/src/reverse_calculation.cpp
index e2ca4d2..d468517 100644
--- a/connection_scan_algorithm/src/reverse_calculation.cpp
+++ b/connection_scan_algorithm/src/reverse_calculation.cpp
@@ -163,7 +163,7 @@ namespace TrRouting
                       if (
                         departureTimeSeconds == -1
                         ||
-                        parameters.getMaxFirstWaitingTimeSeconds() < connectionMinWaitingTimeSeconds
+                        parameters.getMaxFirstWaitingTimeSeconds() <= 0
                         ||
                         connectionDepartureTime - departureTimeSeconds - nodeDepartureInNodesAccessIte->second.time <= parameters.getMaxFirstWaitingTimeSeconds()
                       )
@@ -362,7 +362,7 @@ namespace TrRouting
                       if (
                         departureTimeSeconds == -1
                         ||
-                        parameters.getMaxFirstWaitingTimeSeconds() < connectionMinWaitingTimeSeconds
+                        parameters.getMaxFirstWaitingTimeSeconds() <= 0
                         ||
                         connectionDepartureTime - departureTimeSeconds - nodeDepartureInNodesAccessIte->second.time <= parameters.getMaxFirstWaitingTimeSeconds()
                       )
-- 
2.43.0


From dbdb9ea9eecce2e801310b11eebb115dceb33ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:14 +0000
Subject: [PATCH 08/37] fix: keep transfer walks consistent when a journey is
 optimized

Each step carries the walk that follows it: removing or shortening legs kept
the walk of the former stops (or cleared the wrong one), and legs between two
non-adjacent optimized steps were left in place (or the last one kept).
---
 .../src/optimize_journey.cpp                  | 23 +++++++++++--------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/connection_scan_algorithm/src/optimize_journey.cpp b/connection_scan_algorithm/src/optimize_journey.cpp
index ff60bc9..a0465e1 100644
--- a/connection_scan_algorithm/src/optimize_journey.cpp
+++ b/connection_scan_algorithm/src/optimize_journey.cpp
@@ -209,15 +209,10 @@ namespace TrRouting
             else
             {
               usedOptimizationCases.push_back(1);
-              if (toJourneyStepIdx - fromJourneyStepIdx == 1)
-              {
-                journey.erase(journey.begin() + toJourneyStepIdx);
-              }
-              else if (toJourneyStepIdx - fromJourneyStepIdx > 1) // could not split correctly...
-              {
-                journey.erase(journey.begin() + fromJourneyStepIdx + 1, journey.begin() + toJourneyStepIdx);
-              }
+              // The walk after the cut line(s) now follows the line that remains
+              journey[fromJourneyStepIdx].copyTransferTimeDistance(journey[toJourneyStepIdx]);
               journey[fromJourneyStepIdx].setFinalExitConnection(connection);
+              journey.erase(journey.begin() + fromJourneyStepIdx + 1, journey.begin() + toJourneyStepIdx + 1);
 
               break;
             }
@@ -246,7 +241,9 @@ namespace TrRouting
             {
               usedOptimizationCases.push_back(2);
               journey[toJourneyStepIdx].setFinalEnterConnection(connection);
-              journey[toJourneyStepIdx].setTransferTimeDistance(0,0);
+              // Transfer at the optimization node directly between both lines
+              journey[fromJourneyStepIdx].setTransferTimeDistance(0,0);
+              journey.erase(journey.begin() + fromJourneyStepIdx + 1, journey.begin() + toJourneyStepIdx);
               break;
             }
           }
@@ -275,7 +272,9 @@ namespace TrRouting
             {
               usedOptimizationCases.push_back(3);
               journey[fromJourneyStepIdx].setFinalExitConnection(connection);
-              journey[toJourneyStepIdx].setTransferTimeDistance(0,0);
+              // Transfer at the optimization node directly between both lines
+              journey[fromJourneyStepIdx].setTransferTimeDistance(0,0);
+              journey.erase(journey.begin() + fromJourneyStepIdx + 1, journey.begin() + toJourneyStepIdx);
               break;
             }
           }
@@ -321,6 +320,10 @@ namespace TrRouting
                 usedOptimizationCases.push_back(4);
                 journey[fromJourneyStepIdx].setFinalExitConnection(exitConnection.value());
                 journey[toJourneyStepIdx].setFinalEnterConnection(connection);
+                // Transfer at the optimization node directly between both lines
+                journey[fromJourneyStepIdx].setTransferTimeDistance(0,0);
+                journey.erase(journey.begin() + fromJourneyStepIdx + 1, journey.begin() + toJourneyStepIdx);
+                break;
               }
               else
               {
-- 
2.43.0


From 04ec3d6e9fa027feeabcadb38a9a1b99cf3909ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:07 +0000
Subject: [PATCH 09/37] fix: only count departures that can be boarded
 (arrivals alighted) as service

A vehicle that only drops off at the accessible stops (or only picks up at the
egress stops) was counted, and NO_ROUTING_FOUND reported instead of
NO_SERVICE_FROM_ORIGIN (NO_SERVICE_TO_DESTINATION).
---
 connection_scan_algorithm/src/forward_calculation.cpp | 4 ++--
 connection_scan_algorithm/src/reverse_calculation.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/connection_scan_algorithm/src/forward_calculation.cpp b/connection_scan_algorithm/src/forward_calculation.cpp
index 5a5b4a2..d431d23 100644
--- a/connection_scan_algorithm/src/forward_calculation.cpp
+++ b/connection_scan_algorithm/src/forward_calculation.cpp
@@ -92,6 +92,7 @@ namespace TrRouting
             // TODO: add constrain for sameLineTransfer (check trip allowSameLineTransfers)
             if ((*connection).get().canBoard() && (!tripEnterConnection.has_value()) )
             {
+              reachableConnectionsCount++;
               currentTripQueryOverlay.usable = true;
               currentTripQueryOverlay.enterConnection = *connection;
               currentTripQueryOverlay.enterConnectionTransferTravelTime = forwardJourneysSteps.at(nodeDeparture.uid).getTransferTravelTime();
@@ -155,7 +156,6 @@ namespace TrRouting
                 footpathIndex++;
               }
             }
-            reachableConnectionsCount++;
           }
         }
       }
@@ -275,6 +275,7 @@ namespace TrRouting
             // TODO: add constrain for sameLineTransfer (check trip allowSameLineTransfers)
             if ((*connection).get().canBoard() && ( !tripEnterConnection.has_value()))
             {
+              reachableConnectionsCount++;
               currentTripQueryOverlay.usable = true;
               currentTripQueryOverlay.enterConnection = *connection;
               currentTripQueryOverlay.enterConnectionTransferTravelTime = forwardJourneysSteps.at(nodeDeparture.uid).getTransferTravelTime();
@@ -331,7 +332,6 @@ namespace TrRouting
                 footpathIndex++;
               }
             }
-            reachableConnectionsCount++;
           }
         }
       }
diff --git a/connection_scan_algorithm/src/reverse_calculation.cpp b/connection_scan_algorithm/src/reverse_calculation.cpp
index d468517..28e0a20 100644
--- a/connection_scan_algorithm/src/reverse_calculation.cpp
+++ b/connection_scan_algorithm/src/reverse_calculation.cpp
@@ -79,6 +79,7 @@ namespace TrRouting
             // Make sure the arrival of the connection can unboard and is a candidate for the journey. Nodes are candidate if they can either reach the destination by foot, or a connection that can reach the destination within the specified parameters.
             if ((*connection).get().canUnboard())
             {
+              reachableConnectionsCount++;
               // Extract journeyStep once from map
               const JourneyStep & reverseStepAtArrival = reverseJourneysSteps.at(nodeArrival.uid);
               if (!tripExitConnection.has_value()) // <= to make sure we get the same result as forward calculation, which uses >
@@ -176,7 +177,6 @@ namespace TrRouting
                 footpathIndex++;
               }
             }
-            reachableConnectionsCount++;
           }
         }
       }
@@ -284,6 +284,7 @@ namespace TrRouting
           {
             if ((*connection).get().canUnboard())
             {
+              reachableConnectionsCount++;
               // Extract journeyStep once from map
               const JourneyStep & reverseStepAtArrival = reverseJourneysSteps.at(nodeArrival.uid);
               if (!tripExitConnection.has_value()) // <= to make sure we get the same result as forward calculation, which uses >
@@ -375,7 +376,6 @@ namespace TrRouting
                 footpathIndex++;
               }
             }
-            reachableConnectionsCount++;
           }
         }
       }
-- 
2.43.0


From d6d1b0832b8f2738ae5c45d2147b1c9a1d54680c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:24 +0000
Subject: [PATCH 10/37] fix: use the query's minimum waiting time in arrival
 accessibility maps

Connections that inherit the minimum waiting time have -1, so the time at each
stop was one second after the boarding instead of before the waiting time.
---
 connection_scan_algorithm/src/reverse_journey.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/connection_scan_algorithm/src/reverse_journey.cpp b/connection_scan_algorithm/src/reverse_journey.cpp
index 218a32f..32ad0f6 100644
--- a/connection_scan_algorithm/src/reverse_journey.cpp
+++ b/connection_scan_algorithm/src/reverse_journey.cpp
@@ -322,9 +322,8 @@ namespace TrRouting
       }
 
       if (reverseAccessJourneysSteps.at(resultingNode.uid).getFinalEnterConnection().has_value()) {
-        //TODO Should check taht MinWaiting is not -1 or use OrDefault(0)
         //TODO Could move this operation into a function of class Connection
-        int departureTimeD = reverseAccessJourneysSteps.at(resultingNode.uid).getFinalEnterConnection().value().get().getDepartureTime() - reverseAccessJourneysSteps.at(resultingNode.uid).getFinalEnterConnection().value().get().getMinWaitingTime();
+        int departureTimeD = reverseAccessJourneysSteps.at(resultingNode.uid).getFinalEnterConnection().value().get().getDepartureTime() - reverseAccessJourneysSteps.at(resultingNode.uid).getFinalEnterConnection().value().get().getMinWaitingTimeOrDefault(parameters.getMinWaitingTimeSeconds());
         if (arrivalTimeSeconds - departureTimeD <=  parameters.getMaxTotalTravelTimeSeconds()) {
           reachableNodesCount++;
 
-- 
2.43.0


From 6d3cf30338fa480e12c7e3c618b385d878f6bd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:26 +0000
Subject: [PATCH 11/37] fix: start the transfer walking distance at zero

It was initialised to -1, so transferWalkingDistance was one metre short.
---
 connection_scan_algorithm/src/reverse_journey.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/connection_scan_algorithm/src/reverse_journey.cpp b/connection_scan_algorithm/src/reverse_journey.cpp
index 32ad0f6..86bb2d9 100644
--- a/connection_scan_algorithm/src/reverse_journey.cpp
+++ b/connection_scan_algorithm/src/reverse_journey.cpp
@@ -31,7 +31,7 @@ namespace TrRouting
     int totalTransferWaitingTime { 0}; int inVehicleTime          {-1};
     int totalDistance            { 0}; int distance               {-1};
     int inVehicleDistance        {-1}; int totalInVehicleDistance { 0}; int totalWalkingDistance { 0};
-    int totalTransferDistance    {-1}; int accessDistance         { 0}; int egressDistance       { 0};
+    int totalTransferDistance    { 0}; int accessDistance         { 0}; int egressDistance       { 0};
     int accessWalkingTime      {-1};
     int transferTime             {-1}; int egressWalkingTime      {-1};
     int waitingTime              {-1}; int accessWaitingTime      {-1};
-- 
2.43.0


From a68d72848c139b7db1c4f54185e126e722de30d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:03 +0000
Subject: [PATCH 12/37] fix: keep the distance totals unavailable once a leg
 has no distances

A later leg with distances was added to the -1 that marks the total as
unavailable.
---
 connection_scan_algorithm/src/reverse_journey.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/connection_scan_algorithm/src/reverse_journey.cpp b/connection_scan_algorithm/src/reverse_journey.cpp
index 86bb2d9..3a58d83 100644
--- a/connection_scan_algorithm/src/reverse_journey.cpp
+++ b/connection_scan_algorithm/src/reverse_journey.cpp
@@ -121,7 +121,10 @@ namespace TrRouting
                     {
                       inVehicleDistance += journeyStepTrip.path.segmentsDistanceMeters[seqI];
                     }
-                  totalDistance += inVehicleDistance;
+                  if (totalDistance != -1)
+                    {
+                      totalDistance += inVehicleDistance;
+                    }
                   if (journeyStepTrip.line.mode.isTransferable())
                     {
                       totalWalkingDistance     += inVehicleDistance;
@@ -129,7 +132,7 @@ namespace TrRouting
                       totalTransferDistance    += inVehicleDistance;
                       totalTransferWalkingTime += inVehicleTime;
                     }
-                  else
+                  else if (totalInVehicleDistance != -1)
                     {
                       totalInVehicleDistance += inVehicleDistance;
                     }
-- 
2.43.0


From 95d994b811edf869dbc10d49ed5ef6e0af5b47cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:21 +0000
Subject: [PATCH 13/37] fix: count the time on transferable lines once in the
 totals

It was added both to the in-vehicle and (when distances are known) to the
walking time, so the parts summed to more than the total travel time.
---
 connection_scan_algorithm/src/reverse_journey.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/connection_scan_algorithm/src/reverse_journey.cpp b/connection_scan_algorithm/src/reverse_journey.cpp
index 3a58d83..995a622 100644
--- a/connection_scan_algorithm/src/reverse_journey.cpp
+++ b/connection_scan_algorithm/src/reverse_journey.cpp
@@ -106,10 +106,15 @@ namespace TrRouting
                   transferReadyTime += journey[i+1].getFinalEnterConnection().value().get().getMinWaitingTimeOrDefault(parameters.getMinWaitingTimeSeconds());
                 }
 
-              totalInVehicleTime         += inVehicleTime;
               totalWaitingTime           += waitingTime;
-              if (!journeyStepTrip.line.mode.isTransferable())
+              if (journeyStepTrip.line.mode.isTransferable())
                 {
+                  totalWalkingTime         += inVehicleTime;
+                  totalTransferWalkingTime += inVehicleTime;
+                }
+              else
+                {
+                  totalInVehicleTime       += inVehicleTime;
                   numberOfTransfers += 1;
                 }
 
@@ -128,9 +133,7 @@ namespace TrRouting
                   if (journeyStepTrip.line.mode.isTransferable())
                     {
                       totalWalkingDistance     += inVehicleDistance;
-                      totalWalkingTime         += inVehicleTime;
                       totalTransferDistance    += inVehicleDistance;
-                      totalTransferWalkingTime += inVehicleTime;
                     }
                   else if (totalInVehicleDistance != -1)
                     {
-- 
2.43.0


From e8af62f92e8ab602621e052920856440c6d038f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:40 +0000
Subject: [PATCH 14/37] fix: return the documented error codes for a missing or
 invalid place

---
 connection_scan_algorithm/src/transit_routing_http_server.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/connection_scan_algorithm/src/transit_routing_http_server.cpp b/connection_scan_algorithm/src/transit_routing_http_server.cpp
index 67cc566..ade97af 100644
--- a/connection_scan_algorithm/src/transit_routing_http_server.cpp
+++ b/connection_scan_algorithm/src/transit_routing_http_server.cpp
@@ -91,9 +91,11 @@ std::string getResponseCode(ParameterException::Type type)
     case ParameterException::Type::MISSING_SCENARIO: return "MISSING_PARAM_SCENARIO";
     case ParameterException::Type::MISSING_ORIGIN: return "MISSING_PARAM_ORIGIN";
     case ParameterException::Type::MISSING_DESTINATION: return "MISSING_PARAM_DESTINATION";
+    case ParameterException::Type::MISSING_PLACE: return "MISSING_PARAM_PLACE";
     case ParameterException::Type::MISSING_TIME_OF_TRIP: return "MISSING_PARAM_TIME_OF_TRIP";
     case ParameterException::Type::INVALID_ORIGIN: return "INVALID_ORIGIN";
     case ParameterException::Type::INVALID_DESTINATION: return "INVALID_DESTINATION";
+    case ParameterException::Type::INVALID_PLACE: return "INVALID_PLACE";
     case ParameterException::Type::INVALID_NUMERICAL_DATA: return "INVALID_NUMERICAL_DATA";
     default: return "PARAM_ERROR_UNKNOWN";
   }
-- 
2.43.0


From e03869f83535b55da32773e64161775ce81a2db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:46 +0000
Subject: [PATCH 15/37] fix: reject integer parameters followed by anything
 else

28800abc or 8:30 were silently read as 28800 and 8.
---
 .../src/parameters/common_parameters.cpp                  | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/connection_scan_algorithm/src/parameters/common_parameters.cpp b/connection_scan_algorithm/src/parameters/common_parameters.cpp
index 7723ea8..2b08a43 100644
--- a/connection_scan_algorithm/src/parameters/common_parameters.cpp
+++ b/connection_scan_algorithm/src/parameters/common_parameters.cpp
@@ -56,7 +56,13 @@ namespace TrRouting
   int CommonParameters::getIntegerValue(std::string strValue) {
     try
     {
-      return std::stoi(strValue);
+      size_t parsedCharsCount = 0;
+      int value = std::stoi(strValue, &parsedCharsCount);
+      if (parsedCharsCount != strValue.size())
+      {
+        throw ParameterException(ParameterException::Type::INVALID_NUMERICAL_DATA);
+      }
+      return value;
     }
     catch (...)
     {
-- 
2.43.0


From b74206965cfd2278cdbe7c03abce6e2c8d573529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:44 +0000
Subject: [PATCH 16/37] fix: reject coordinates that are not finite numbers

nan, inf or a number followed by anything else were accepted; nan and inf were
then echoed as null in the response.
---
 .../src/parameters/accessibility_parameters.cpp    |  2 +-
 .../src/parameters/common_parameters.cpp           | 14 ++++++++++++++
 .../src/parameters/route_parameters.cpp            |  4 ++--
 include/parameters.hpp                             |  1 +
 4 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/connection_scan_algorithm/src/parameters/accessibility_parameters.cpp b/connection_scan_algorithm/src/parameters/accessibility_parameters.cpp
index c1a9c30..9ddff47 100644
--- a/connection_scan_algorithm/src/parameters/accessibility_parameters.cpp
+++ b/connection_scan_algorithm/src/parameters/accessibility_parameters.cpp
@@ -60,7 +60,7 @@ namespace TrRouting
           {
             throw ParameterException(ParameterException::Type::INVALID_PLACE);
           }
-          place = Point(std::stod(latitudeLongitudeVector[1]), std::stod(latitudeLongitudeVector[0]));
+          place = Point(CommonParameters::getCoordinateValue(latitudeLongitudeVector[1]), CommonParameters::getCoordinateValue(latitudeLongitudeVector[0]));
         }
         catch (...)
         {
diff --git a/connection_scan_algorithm/src/parameters/common_parameters.cpp b/connection_scan_algorithm/src/parameters/common_parameters.cpp
index 2b08a43..3682286 100644
--- a/connection_scan_algorithm/src/parameters/common_parameters.cpp
+++ b/connection_scan_algorithm/src/parameters/common_parameters.cpp
@@ -1,3 +1,6 @@
+#include <cmath>
+#include <stdexcept>
+#include <string>
 #include <boost/uuid/string_generator.hpp>
 #include <boost/algorithm/string.hpp>
 
@@ -71,6 +74,17 @@ namespace TrRouting
     }
   }
 
+  // Throws an exception if the whole string is not a finite number
+  double CommonParameters::getCoordinateValue(std::string strValue) {
+    size_t parsedCharsCount = 0;
+    double value = std::stod(strValue, &parsedCharsCount);
+    if (parsedCharsCount != strValue.size() || !std::isfinite(value))
+    {
+      throw std::invalid_argument("not a coordinate: " + strValue);
+    }
+    return value;
+  }
+
   CommonParameters CommonParameters::createCommonParameter(std::vector<std::pair<std::string, std::string>> &parameters, const std::map<boost::uuids::uuid, Scenario> &scenarios)
   {
     boost::uuids::string_generator uuidGenerator;
diff --git a/connection_scan_algorithm/src/parameters/route_parameters.cpp b/connection_scan_algorithm/src/parameters/route_parameters.cpp
index 0120005..63dd183 100644
--- a/connection_scan_algorithm/src/parameters/route_parameters.cpp
+++ b/connection_scan_algorithm/src/parameters/route_parameters.cpp
@@ -79,7 +79,7 @@ namespace TrRouting
           {
             throw ParameterException(ParameterException::Type::INVALID_ORIGIN);
           }
-          origin = Point(std::stod(latitudeLongitudeVector[1]), std::stod(latitudeLongitudeVector[0]));
+          origin = Point(CommonParameters::getCoordinateValue(latitudeLongitudeVector[1]), CommonParameters::getCoordinateValue(latitudeLongitudeVector[0]));
         }
         catch (...)
         {
@@ -95,7 +95,7 @@ namespace TrRouting
           {
             throw ParameterException(ParameterException::Type::INVALID_DESTINATION);
           }
-          destination = Point(std::stod(latitudeLongitudeVector[1]), std::stod(latitudeLongitudeVector[0]));
+          destination = Point(CommonParameters::getCoordinateValue(latitudeLongitudeVector[1]), CommonParameters::getCoordinateValue(latitudeLongitudeVector[0]));
         }
         catch (...)
         {
diff --git a/include/parameters.hpp b/include/parameters.hpp
index 2b741e0..2088b2d 100644
--- a/include/parameters.hpp
+++ b/include/parameters.hpp
@@ -152,6 +152,7 @@ namespace TrRouting
        * @return int The converted integer
        */
       static int getIntegerValue(std::string strValue);
+      static double getCoordinateValue(std::string strValue);
   };
 
   class RouteParameters : public CommonParameters {
-- 
2.43.0


From 3db1b0277084cbd9aba1221b9522e9e0a93d8a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:06 +0000
Subject: [PATCH 17/37] fix: answer /updateCache with well-formed JSON naming
 only the known caches

A name was reported as refreshed when any earlier one was known, an unknown
name alone popped the last character of an empty string (undefined behaviour)
and was a success, and the custom path was not escaped.
---
 .../src/transit_routing_http_server.cpp                | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/connection_scan_algorithm/src/transit_routing_http_server.cpp b/connection_scan_algorithm/src/transit_routing_http_server.cpp
index ade97af..a0796f3 100644
--- a/connection_scan_algorithm/src/transit_routing_http_server.cpp
+++ b/connection_scan_algorithm/src/transit_routing_http_server.cpp
@@ -184,10 +184,10 @@ int main(int argc, char** argv) {
       }
     }
 
-    bool correctCacheName {false};
     //TODO Merge this and the preparations.cpp code
     for(std::string cacheName : cacheNames)
     {
+      bool correctCacheName {false};
       if (cacheName == "data_sources" || cacheName == "all")
       {
         correctCacheName = true;
@@ -253,7 +253,6 @@ int main(int argc, char** argv) {
         transitData.updateSchedules(customCacheDirectoryPath);
       }
 
-      //TODO This is incorrect if we have multiple name and the second one is wrong, correctCacheName is always true
       if (correctCacheName)
       {
         cacheNamesStr += cacheName;
@@ -261,14 +260,15 @@ int main(int argc, char** argv) {
       }
     }
 
-    //TODO do this only if we had at least one correct name
     //Reinit some data after the update
     // TODO Just the schedules???
-    if (cacheNames.size() > 0)
+    if (cacheNamesStr.size() > 0)
     {
       // Remove last ","
       cacheNamesStr.pop_back();
-      response = "{\"status\": \"success\", \"cache_names\": \"" + cacheNamesStr + "\", \"custom_cache_path\": \"" + customCacheDirectoryPath + "\"}";
+      // The path is given by the client: escape it
+      nlohmann::json customCacheDirectoryPathJson = customCacheDirectoryPath;
+      response = "{\"status\": \"success\", \"cache_names\": \"" + cacheNamesStr + "\", \"custom_cache_path\": " + customCacheDirectoryPathJson.dump(-1, ' ', false, nlohmann::json::error_handler_t::replace) + "}";
     }
     else
     {
-- 
2.43.0


From a54681c590d3ef41086f4b82679c52202d10b62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:04 +0000
Subject: [PATCH 18/37] fix: make the request counters atomic

They are incremented by concurrent requests.
---
 .../src/transit_routing_http_server.cpp                    | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/connection_scan_algorithm/src/transit_routing_http_server.cpp b/connection_scan_algorithm/src/transit_routing_http_server.cpp
index a0796f3..08496e5 100644
--- a/connection_scan_algorithm/src/transit_routing_http_server.cpp
+++ b/connection_scan_algorithm/src/transit_routing_http_server.cpp
@@ -4,6 +4,7 @@
 //Added for the json-example
 #define BOOST_SPIRIT_THREADSAFE
 
+#include <atomic>
 #include <vector>
 #include <algorithm>
 #include <string>
@@ -303,7 +304,7 @@ int main(int argc, char** argv) {
   // TODO Copy-pasted and adapted from /route/v1/transit. There's still a lot of common code. Application code should be extracted to common functions outside the web server
   server.resource["^/v2/route[/]?$"]["GET"]=[&server, &dataStatus, &transitData, &geoFilter](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
     // Have a global id to match the requests in the logs
-    static int routeRequestId = 0;
+    static std::atomic<int> routeRequestId {0};
     std::string response = getFastErrorResponse(dataStatus);
 
     if (!response.empty()) {
@@ -373,7 +374,7 @@ int main(int argc, char** argv) {
   // TODO Copy pasted from v2/route. There's a lot in common, it should be extracted to common class, just the response parser is different
   server.resource["^/v2/summary[/]?$"]["GET"]=[&server, &dataStatus, &transitData, &geoFilter](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
     // Have a global id to match the requests in the logs
-    static int summaryRequestId = 0;
+    static std::atomic<int> summaryRequestId {0};
 
     std::string response = getFastErrorResponse(dataStatus);
 
@@ -444,7 +445,7 @@ int main(int argc, char** argv) {
   // TODO Copy-pasted and adapted from /route/v1/transit. There's still a lot of common code. Application code should be extracted to common functions outside the web server
   server.resource["^/v2/accessibility[/]?$"]["GET"]=[&server, &dataStatus, &transitData, &geoFilter](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
     // Have a global id to match the requests in the logs
-    static int accessibilityRequestId = 0;
+    static std::atomic<int> accessibilityRequestId {0};
 
     std::string response = getFastErrorResponse(dataStatus);
 
-- 
2.43.0


From 3e987e8fcc86c248a9187a59988e513dd01acada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:49 +0000
Subject: [PATCH 19/37] fix: drop the cached connection sets when the data they
 come from is refreshed

---
 include/connection_cache.hpp |  4 ++++
 src/connection_cache.cpp     | 11 +++++++++++
 src/transit_data.cpp         | 16 ++++++++++------
 3 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/include/connection_cache.hpp b/include/connection_cache.hpp
index 5ed4e2d..bee2191 100644
--- a/include/connection_cache.hpp
+++ b/include/connection_cache.hpp
@@ -28,6 +28,8 @@ class ScenarioConnectionCache {
     
     virtual std::optional<std::shared_ptr<ConnectionSet>> get(boost::uuids::uuid uuid) const = 0;
     virtual void set(boost::uuids::uuid uuid, std::shared_ptr<ConnectionSet> cache) = 0;
+    // Forget all the connection sets, to call when the data they were built from changes
+    virtual void clear() = 0;
 };
 
 /**
@@ -45,6 +47,7 @@ class ScenarioConnectionCacheOne : public ScenarioConnectionCache {
 
     virtual std::optional<std::shared_ptr<ConnectionSet>> get(boost::uuids::uuid uuid) const;
     virtual void set(boost::uuids::uuid uuid, std::shared_ptr<ConnectionSet> cache);
+    virtual void clear();
 
   private:
   mutable std::shared_mutex mutex; //Reader/Writer locking
@@ -68,6 +71,7 @@ class ScenarioConnectionCacheAll : public ScenarioConnectionCache {
 
     virtual std::optional<std::shared_ptr<ConnectionSet>> get(boost::uuids::uuid uuid) const;
     virtual void set(boost::uuids::uuid uuid, std::shared_ptr<ConnectionSet> cache);
+    virtual void clear();
 
   private:
     mutable std::shared_mutex mutex; //Reader/Writer locking
diff --git a/src/connection_cache.cpp b/src/connection_cache.cpp
index 87c9959..02f0882 100644
--- a/src/connection_cache.cpp
+++ b/src/connection_cache.cpp
@@ -22,6 +22,12 @@ namespace TrRouting {
     lastConnection = cache;
   }
 
+  void ScenarioConnectionCacheOne::clear() {
+    std::unique_lock lock(mutex); //Exclusive lock when writing
+    lastUuid.reset();
+    lastConnection.reset();
+  }
+
   // ScenarioConnectionCacheAll
   std::optional<std::shared_ptr<ConnectionSet>> ScenarioConnectionCacheAll::get(boost::uuids::uuid uuid) const {
     std::shared_lock lock(mutex); //Sharing lock when reading
@@ -39,4 +45,9 @@ namespace TrRouting {
     std::unique_lock lock(mutex); //Exclusive lock when writing
     connectionSets[uuid] = cache;
   }
+
+  void ScenarioConnectionCacheAll::clear() {
+    std::unique_lock lock(mutex); //Exclusive lock when writing
+    connectionSets.clear();
+  }
 }
diff --git a/src/transit_data.cpp b/src/transit_data.cpp
index 587bc16..407fb1a 100644
--- a/src/transit_data.cpp
+++ b/src/transit_data.cpp
@@ -23,12 +23,6 @@ namespace TrRouting {
   TransitData::TransitData(DataFetcher& fetcher, bool cacheAllScenarios) :
     dataFetcher(fetcher)
   {
-    DataStatus loadStatus = loadAllData();
-    if (loadStatus != DataStatus::READY) {
-      //TODO For now, don't throw on error because Transit server expect to get the dataStatus
-      //throw std::exception("Incomplete transit data");
-      spdlog::error("TransitData loading had error, object will not be valid");
-    }
     if (cacheAllScenarios) {
       scenarioConnectionCache = new ScenarioConnectionCacheAll();
       spdlog::info("Will cache all connectionSets");
@@ -36,6 +30,12 @@ namespace TrRouting {
       scenarioConnectionCache = new ScenarioConnectionCacheOne();
       spdlog::info("Will cache one connectionSet");
     }
+    DataStatus loadStatus = loadAllData();
+    if (loadStatus != DataStatus::READY) {
+      //TODO For now, don't throw on error because Transit server expect to get the dataStatus
+      //throw std::exception("Incomplete transit data");
+      spdlog::error("TransitData loading had error, object will not be valid");
+    }
   }
 
   TransitData::~TransitData() {
@@ -127,11 +127,15 @@ namespace TrRouting {
 
   int TransitData::updateScenarios(std::string customPath)
   {
+    // The connection sets were filtered with the previous scenarios
+    scenarioConnectionCache->clear();
     return dataFetcher.getScenarios(scenarios, getServices(), getLines(), getAgencies(), getNodes(), getModes(), customPath);
   }
 
   int TransitData::updateSchedules(std::string customPath)
   {
+    // The connection sets refer to the previous connections
+    scenarioConnectionCache->clear();
     int ret =  dataFetcher.getSchedules(
       trips,
       getLines(),
-- 
2.43.0


From 26bf9c8217ced01fd6a672f4398c1fb2ee7e9538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:53 +0000
Subject: [PATCH 20/37] fix: report the status of the current data, not of the
 data at start-up

---
 .../src/transit_routing_http_server.cpp         | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/connection_scan_algorithm/src/transit_routing_http_server.cpp b/connection_scan_algorithm/src/transit_routing_http_server.cpp
index 08496e5..48fdee8 100644
--- a/connection_scan_algorithm/src/transit_routing_http_server.cpp
+++ b/connection_scan_algorithm/src/transit_routing_http_server.cpp
@@ -125,9 +125,8 @@ int main(int argc, char** argv) {
 
   spdlog::info("preparing calculator...");
   TransitData transitData(*fetcher, programOptions.cacheAllConnectionSets);
-  //TODO We wanted to handle error in the constructor, but later part of this code expect a dataStatus
-  // leaving as a todo
-  DataStatus dataStatus = transitData.getDataStatus();
+  //TODO We wanted to handle error in the constructor, but the handlers expect a dataStatus, that may
+  // change when the data is refreshed, leaving as a todo
 
   // Selection which geofilter to use. OSRM is the default one. Euclidean mostly used for debugging and testing
   GeoFilter *geoFilter = 0;
@@ -302,10 +301,10 @@ int main(int argc, char** argv) {
 
   // Routing request for a single origin destination
   // TODO Copy-pasted and adapted from /route/v1/transit. There's still a lot of common code. Application code should be extracted to common functions outside the web server
-  server.resource["^/v2/route[/]?$"]["GET"]=[&server, &dataStatus, &transitData, &geoFilter](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
+  server.resource["^/v2/route[/]?$"]["GET"]=[&server, &transitData, &geoFilter](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
     // Have a global id to match the requests in the logs
     static std::atomic<int> routeRequestId {0};
-    std::string response = getFastErrorResponse(dataStatus);
+    std::string response = getFastErrorResponse(transitData.getDataStatus());
 
     if (!response.empty()) {
       *serverResponse << "HTTP/1.1 200 OK\r\nAccess-Control-Allow-Origin: *\r\nContent-Type: application/json; charset=utf-8\r\nContent-Length: " << response.length() << "\r\n\r\n" << response;
@@ -372,11 +371,11 @@ int main(int argc, char** argv) {
 
   // Request a summary of lines data for a route
   // TODO Copy pasted from v2/route. There's a lot in common, it should be extracted to common class, just the response parser is different
-  server.resource["^/v2/summary[/]?$"]["GET"]=[&server, &dataStatus, &transitData, &geoFilter](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
+  server.resource["^/v2/summary[/]?$"]["GET"]=[&server, &transitData, &geoFilter](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
     // Have a global id to match the requests in the logs
     static std::atomic<int> summaryRequestId {0};
 
-    std::string response = getFastErrorResponse(dataStatus);
+    std::string response = getFastErrorResponse(transitData.getDataStatus());
 
     if (!response.empty()) {
       *serverResponse << "HTTP/1.1 200 OK\r\nAccess-Control-Allow-Origin: *\r\nContent-Type: application/json; charset=utf-8\r\nContent-Length: " << response.length() << "\r\n\r\n" << response;
@@ -443,11 +442,11 @@ int main(int argc, char** argv) {
 
   // Routing request for a single origin destination
   // TODO Copy-pasted and adapted from /route/v1/transit. There's still a lot of common code. Application code should be extracted to common functions outside the web server
-  server.resource["^/v2/accessibility[/]?$"]["GET"]=[&server, &dataStatus, &transitData, &geoFilter](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
+  server.resource["^/v2/accessibility[/]?$"]["GET"]=[&server, &transitData, &geoFilter](std::shared_ptr<HttpServer::Response> serverResponse, std::shared_ptr<HttpServer::Request> request) {
     // Have a global id to match the requests in the logs
     static std::atomic<int> accessibilityRequestId {0};
 
-    std::string response = getFastErrorResponse(dataStatus);
+    std::string response = getFastErrorResponse(transitData.getDataStatus());
 
     if (!response.empty()) {
       *serverResponse << "HTTP/1.1 200 OK\r\nAccess-Control-Allow-Origin: *\r\nContent-Type: application/json; charset=utf-8\r\nContent-Length: " << response.length() << "\r\n\r\n" << response;
-- 
2.43.0


From c772fbd331f6d37ce6bd756d4cbc28795a7d70d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:15 +0000
Subject: [PATCH 21/37] fix: do not keep references to old connections when the
 schedules cannot be read

---
 src/transit_data.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/transit_data.cpp b/src/transit_data.cpp
index 407fb1a..f4ebc49 100644
--- a/src/transit_data.cpp
+++ b/src/transit_data.cpp
@@ -146,6 +146,11 @@ namespace TrRouting {
     );
     if (ret < 0)
     {
+      // Do not keep a partial timetable, or references to the previous connections
+      forwardConnections.clear();
+      reverseConnections.clear();
+      connections.clear();
+      trips.clear();
       return ret;
     }
     return generateForwardAndReverseConnections();
-- 
2.43.0


From 0209d971fccad7e612cdf2cc1e7d7f9caebd2b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:38 +0000
Subject: [PATCH 22/37] fix: tell apart unreadable and missing data in the data
 status

---
 include/transit_data.hpp |   5 ++
 src/transit_data.cpp     | 172 ++++++++++++++-------------------------
 2 files changed, 68 insertions(+), 109 deletions(-)

diff --git a/include/transit_data.hpp b/include/transit_data.hpp
index 0e6e988..1fb29eb 100644
--- a/include/transit_data.hpp
+++ b/include/transit_data.hpp
@@ -2,6 +2,7 @@
 #define TR_TRANSIT_DATA
 
 #include <map>
+#include <set>
 #include <string>
 #include <vector>
 #include <memory>
@@ -101,6 +102,8 @@ namespace TrRouting {
   protected:
     DataStatus loadAllData();
     int generateForwardAndReverseConnections();
+    // Remember whether the last update of a kind of data could not read it. A missing file is not an error.
+    int setReadResult(const std::string & kind, int ret);
 
     DataFetcher &dataFetcher;
 
@@ -116,6 +119,8 @@ namespace TrRouting {
     std::map<boost::uuids::uuid, Scenario>   scenarios;
     std::map<boost::uuids::uuid, Trip>       trips;
 
+    std::set<std::string> unreadableData; // Kinds of data whose last update failed
+
     std::vector<Connection> connections;
     std::vector<std::reference_wrapper<const Connection>> forwardConnections; // Forward connections, sorted by departure time ascending
     std::vector<std::reference_wrapper<const Connection>> reverseConnections; // Reverse connections, sorted by arrival time descending
diff --git a/src/transit_data.cpp b/src/transit_data.cpp
index f4ebc49..5ff147d 100644
--- a/src/transit_data.cpp
+++ b/src/transit_data.cpp
@@ -43,46 +43,56 @@ namespace TrRouting {
   }
 
   DataStatus TransitData::getDataStatus() const {
-    if (agencies.size() == 0)
-    {
-      return DataStatus::NO_AGENCIES;
-    }
-    else if (services.size() == 0)
-    {
-      return DataStatus::NO_SERVICES;
-    }
-    else if (nodes.size() == 0)
-    {
-      return DataStatus::NO_NODES;
-    }
-    else if (lines.size() == 0)
-    {
-      return DataStatus::NO_LINES;
-    }
-    else if (paths.size() == 0)
+    // Each kind is verified after those it refers to, so the status tells the cause and not a consequence
+    auto status = [this](const std::string & kind, size_t count, DataStatus missingStatus) {
+      if (unreadableData.count(kind) > 0)
+      {
+        return DataStatus::DATA_READ_ERROR;
+      }
+      return count == 0 ? missingStatus : DataStatus::READY;
+    };
+    //TODO Add connection
+    for (DataStatus kindStatus : {
+      status("agencies", agencies.size(), DataStatus::NO_AGENCIES),
+      status("services", services.size(), DataStatus::NO_SERVICES),
+      status("nodes", nodes.size(), DataStatus::NO_NODES),
+      status("lines", lines.size(), DataStatus::NO_LINES),
+      status("paths", paths.size(), DataStatus::NO_PATHS),
+      status("scenarios", scenarios.size(), DataStatus::NO_SCENARIOS),
+      status("schedules", trips.size(), DataStatus::NO_SCHEDULES)
+    })
     {
-      return DataStatus::NO_PATHS;
+      if (kindStatus != DataStatus::READY)
+      {
+        return kindStatus;
+      }
     }
-    else if (scenarios.size() == 0)
+    // The other kinds of data are optional, but have to be valid
+    return unreadableData.empty() ? DataStatus::READY : DataStatus::DATA_READ_ERROR;
+  }
+
+  int TransitData::setReadResult(const std::string & kind, int ret)
+  {
+    // Ignore missing files
+    if (ret < 0 && ret != -ENOENT)
     {
-      return DataStatus::NO_SCENARIOS;
+      unreadableData.insert(kind);
     }
-    //TODO Add connection
-    else if (/*calculator->countConnections() == 0  ||*/ trips.size() == 0)
+    else
     {
-      return DataStatus::NO_SCHEDULES;
+      unreadableData.erase(kind);
     }
-    return DataStatus::READY;
+    return ret;
   }
 
   int TransitData::updateNodes(std::string customPath)
   {
-    return dataFetcher.getNodes(nodes, customPath);
+    return setReadResult("nodes", dataFetcher.getNodes(nodes, customPath));
   }
 
   int TransitData::updateDataSources(std::string customPath)
   {
-    return dataFetcher.getDataSources(dataSources, customPath);
+    return setReadResult("data_sources", dataFetcher.getDataSources(dataSources, customPath));
   }
   /* TODO #167
   int TransitData::updateHouseholds(std::string customPath)
@@ -92,12 +102,12 @@ namespace TrRouting {
   */
   int TransitData::updatePersons(std::string customPath)
   {
-    return dataFetcher.getPersons(persons, getDataSources(), customPath);
+    return setReadResult("persons", dataFetcher.getPersons(persons, getDataSources(), customPath));
   }
   
   int TransitData::updateOdTrips(std::string customPath)
   {
-    return dataFetcher.getOdTrips(odTrips, dataSources, getPersons(), getNodes(), customPath);
+    return setReadResult("od_trips", dataFetcher.getOdTrips(odTrips, dataSources, getPersons(), getNodes(), customPath));
   }
   /* TODO #167
   int TransitData::updatePlaces(std::string customPath)
@@ -107,29 +117,29 @@ namespace TrRouting {
   */ 
   int TransitData::updateAgencies(std::string customPath)
   {
-    return dataFetcher.getAgencies(agencies, customPath);
+    return setReadResult("agencies", dataFetcher.getAgencies(agencies, customPath));
   }
 
   int TransitData::updateServices(std::string customPath)
   {
-    return dataFetcher.getServices(services, customPath);
+    return setReadResult("services", dataFetcher.getServices(services, customPath));
   }
 
   int TransitData::updateLines(std::string customPath)
   {
-    return dataFetcher.getLines(lines, getAgencies(), getModes(), customPath);
+    return setReadResult("lines", dataFetcher.getLines(lines, getAgencies(), getModes(), customPath));
   }
 
   int TransitData::updatePaths(std::string customPath)
   {
-    return dataFetcher.getPaths(paths, getLines(), getNodes(), customPath);
+    return setReadResult("paths", dataFetcher.getPaths(paths, getLines(), getNodes(), customPath));
   }
 
   int TransitData::updateScenarios(std::string customPath)
   {
     // The connection sets were filtered with the previous scenarios
     scenarioConnectionCache->clear();
-    return dataFetcher.getScenarios(scenarios, getServices(), getLines(), getAgencies(), getNodes(), getModes(), customPath);
+    return setReadResult("scenarios", dataFetcher.getScenarios(scenarios, getServices(), getLines(), getAgencies(), getNodes(), getModes(), customPath));
   }
 
   int TransitData::updateSchedules(std::string customPath)
@@ -151,9 +161,12 @@ namespace TrRouting {
       reverseConnections.clear();
       connections.clear();
       trips.clear();
-      return ret;
     }
-    return generateForwardAndReverseConnections();
+    else
+    {
+      ret = generateForwardAndReverseConnections();
+    }
+    return setReadResult("schedules", ret);
   }
 
   const int CONNECTION_ITERATOR_CACHE_BEGIN_HOUR = 0;
@@ -269,84 +282,25 @@ namespace TrRouting {
   }
   
   DataStatus TransitData::loadAllData() {
-    int ret = 0;
-
     spdlog::debug("preparing nodes, routes, trips, connections and footpaths...");
     
     modes = dataFetcher.getModes();
 
-    ret = updateNodes();
-    // Ignore missing nodes file
-    if (ret < 0 && ret != -ENOENT)
-    {
-      return DataStatus::DATA_READ_ERROR;
-    }
-    ret = updateDataSources();
-    // Ignore missing data sources file
-    if (ret < 0 && ret != -ENOENT)
-    {
-      return DataStatus::DATA_READ_ERROR;
-    }
-    /* TODO #167
-    ret = updateHouseholds();
-    if (ret < 0)
-    {
-      return DataStatus::DATA_READ_ERROR;
-    }
-    */
-    ret = updatePersons();
-    if (ret < 0)
-    {
-      return DataStatus::DATA_READ_ERROR;
-    }
-    ret = updateOdTrips();
-    if (ret < 0)
-    {
-      return DataStatus::DATA_READ_ERROR;
-    }
-    /* TODO #167
-    ret = updatePlaces();
-    if (ret < 0)
-    {
-      return DataStatus::DATA_READ_ERROR;
-    }
-    */
-    ret = updateAgencies();
-    // Ignore missing file
-    if (ret < 0 && ret != -ENOENT)
-    {
-      return DataStatus::DATA_READ_ERROR;
-    }
-    ret = updateServices();
-    // Ignore missing file
-    if (ret < 0 && ret != -ENOENT)
-    {
-      return DataStatus::DATA_READ_ERROR;
-    }
-    ret = updateLines();
-    // Ignore missing file
-    if (ret < 0 && ret != -ENOENT)
-    {
-      return DataStatus::DATA_READ_ERROR;
-    }
-    ret = updatePaths();
-    // Ignore missing file
-    if (ret < 0 && ret != -ENOENT)
-    {
-      return DataStatus::DATA_READ_ERROR;
-    }
-    ret = updateScenarios();
-    // Ignore missing file
-    if (ret < 0 && ret != -ENOENT)
-    {
-      return DataStatus::DATA_READ_ERROR;
-    }
-    ret = updateSchedules();
-    // Ignore missing file
-    if (ret < 0 && ret != -ENOENT)
-    {
-      return DataStatus::DATA_READ_ERROR;
-    }
+    // The updates remember the errors for the data status
+    updateNodes();
+    updateDataSources();
+    // TODO #167
+    //updateHouseholds();
+    updatePersons();
+    updateOdTrips();
+    // TODO #167
+    //updatePlaces();
+    updateAgencies();
+    updateServices();
+    updateLines();
+    updatePaths();
+    updateScenarios();
+    updateSchedules();
 
     return getDataStatus();
   }
-- 
2.43.0


From 88388b527a0475245f7e4e12aca2f8bb3a3d9751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:39 +0000
Subject: [PATCH 23/37] fix: refresh the data in loading order, along with the
 data that refers to it

---
 .../src/transit_routing_http_server.cpp       | 108 ++++++++----------
 1 file changed, 45 insertions(+), 63 deletions(-)

diff --git a/connection_scan_algorithm/src/transit_routing_http_server.cpp b/connection_scan_algorithm/src/transit_routing_http_server.cpp
index 48fdee8..b07ee11 100644
--- a/connection_scan_algorithm/src/transit_routing_http_server.cpp
+++ b/connection_scan_algorithm/src/transit_routing_http_server.cpp
@@ -5,6 +5,7 @@
 #define BOOST_SPIRIT_THREADSAFE
 
 #include <atomic>
+#include <set>
 #include <vector>
 #include <algorithm>
 #include <string>
@@ -184,73 +185,39 @@ int main(int argc, char** argv) {
       }
     }
 
-    //TODO Merge this and the preparations.cpp code
+    // Each kind of data, in loading order, with the kinds it refers to: since the
+    // references are lost when those are refreshed, it has to be refreshed as well.
+    // TODO #167 Add households and places
+    struct CacheKind
+    {
+      std::string name;
+      int (TransitData::*update)(std::string);
+      std::vector<std::string> refersTo;
+    };
+    static const std::vector<CacheKind> cacheKinds {
+      {"nodes",        &TransitData::updateNodes,       {}},
+      {"data_sources", &TransitData::updateDataSources, {}},
+      {"persons",      &TransitData::updatePersons,     {"data_sources"}},
+      {"od_trips",     &TransitData::updateOdTrips,     {"data_sources", "persons", "nodes"}},
+      {"agencies",     &TransitData::updateAgencies,    {}},
+      {"services",     &TransitData::updateServices,    {}},
+      {"lines",        &TransitData::updateLines,       {"agencies"}},
+      {"paths",        &TransitData::updatePaths,       {"lines", "nodes"}},
+      {"scenarios",    &TransitData::updateScenarios,   {"services", "lines", "agencies", "nodes"}},
+      {"schedules",    &TransitData::updateSchedules,   {"lines", "paths", "services", "agencies"}}
+    };
+
+    std::set<std::string> kindsToUpdate;
     for(std::string cacheName : cacheNames)
     {
       bool correctCacheName {false};
-      if (cacheName == "data_sources" || cacheName == "all")
-      {
-        correctCacheName = true;
-        transitData.updateDataSources(customCacheDirectoryPath);
-      }
-      /* TODO #167
-      if (cacheName == "households" || cacheName == "all")
-      {
-        correctCacheName = true;
-        transitData.updateHouseholds(customCacheDirectoryPath);
-      }
-      */
-      if (cacheName == "persons" || cacheName == "all")
-      {
-        correctCacheName = true;
-        transitData.updatePersons(customCacheDirectoryPath);
-      }
-      if (cacheName == "od_trips" || cacheName == "all")
-      {
-        correctCacheName = true;
-        transitData.updateOdTrips(customCacheDirectoryPath);
-      }
-      /* TODO #167
-      if (cacheName == "places" || cacheName == "all")
-      {
-        correctCacheName = true;
-        transitData.updatePlaces(customCacheDirectoryPath);
-      }
-      */
-      if (cacheName == "agencies" || cacheName == "all")
-      {
-        correctCacheName = true;
-        transitData.updateAgencies(customCacheDirectoryPath);
-      }
-      if (cacheName == "services" || cacheName == "all")
-      {
-        correctCacheName = true;
-        transitData.updateServices(customCacheDirectoryPath);
-      }
-      if (cacheName == "nodes" || cacheName == "all")
-      {
-        correctCacheName = true;
-        transitData.updateNodes(customCacheDirectoryPath);
-      }
-      if (cacheName == "lines" || cacheName == "all")
+      for(const CacheKind & kind : cacheKinds)
       {
-        correctCacheName = true;
-        transitData.updateLines(customCacheDirectoryPath);
-      }
-      if (cacheName == "paths" || cacheName == "all")
-      {
-        correctCacheName = true;
-        transitData.updatePaths(customCacheDirectoryPath);
-      }
-      if (cacheName == "scenarios" || cacheName == "all")
-      {
-        correctCacheName = true;
-        transitData.updateScenarios(customCacheDirectoryPath);
-      }
-      if (cacheName == "schedules" || cacheName == "all")
-      {
-        correctCacheName = true;
-        transitData.updateSchedules(customCacheDirectoryPath);
+        if (cacheName == kind.name || cacheName == "all")
+        {
+          correctCacheName = true;
+          kindsToUpdate.insert(kind.name);
+        }
       }
 
       if (correctCacheName)
@@ -260,6 +227,21 @@ int main(int argc, char** argv) {
       }
     }
 
+    for(const CacheKind & kind : cacheKinds)
+    {
+      for(const std::string & otherName : kind.refersTo)
+      {
+        if (kindsToUpdate.count(otherName) > 0)
+        {
+          kindsToUpdate.insert(kind.name);
+        }
+      }
+      if (kindsToUpdate.count(kind.name) > 0)
+      {
+        (transitData.*(kind.update))(customCacheDirectoryPath);
+      }
+    }
+
     //Reinit some data after the update
     // TODO Just the schedules???
     if (cacheNamesStr.size() > 0)
-- 
2.43.0


From 7581d39cbf26e5289fcde9be43a6ecde0595e50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:35 +0000
Subject: [PATCH 24/37] fix: do not build circular journeys with trips that
 take no time

---
 connection_scan_algorithm/src/reverse_calculation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/connection_scan_algorithm/src/reverse_calculation.cpp b/connection_scan_algorithm/src/reverse_calculation.cpp
index 28e0a20..564bad8 100644
--- a/connection_scan_algorithm/src/reverse_calculation.cpp
+++ b/connection_scan_algorithm/src/reverse_calculation.cpp
@@ -136,7 +136,7 @@ namespace TrRouting
 
                 if (footpathTravelTime <= parameters.getMaxTransferWalkingTravelTimeSeconds())
                 {                  
-                  if (connectionDepartureTime - footpathTravelTime - connectionMinWaitingTimeSeconds >= nodesReverseTentativeTime.at(transferableNode.node.uid))
+                  if (connectionDepartureTime - footpathTravelTime - connectionMinWaitingTimeSeconds > nodesReverseTentativeTime.at(transferableNode.node.uid))
                   {
                     footpathDistance = nodeDeparture.reverseTransferableNodes.at(footpathIndex).distance;
                     nodesReverseTentativeTime[transferableNode.node.uid] = connectionDepartureTime - footpathTravelTime - connectionMinWaitingTimeSeconds;
@@ -335,7 +335,7 @@ namespace TrRouting
 
                 if (footpathTravelTime <= parameters.getMaxTransferWalkingTravelTimeSeconds())
                 {
-                  if (connectionDepartureTime - footpathTravelTime - connectionMinWaitingTimeSeconds >= nodesReverseTentativeTime.at(transferableNode.node.uid))
+                  if (connectionDepartureTime - footpathTravelTime - connectionMinWaitingTimeSeconds > nodesReverseTentativeTime.at(transferableNode.node.uid))
                   {
                     footpathDistance = nodeDeparture.reverseTransferableNodes.at(footpathIndex).distance;
                     nodesReverseTentativeTime[transferableNode.node.uid] = connectionDepartureTime - footpathTravelTime - connectionMinWaitingTimeSeconds;
-- 
2.43.0


From cd53108a9bca1b6e85123372f9185e10533327a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:59 +0000
Subject: [PATCH 25/37] fix: do not crash on inconsistent node cache files

---
 src/nodes_cache_fetcher.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/nodes_cache_fetcher.cpp b/src/nodes_cache_fetcher.cpp
index a5cd220..122d9f8 100644
--- a/src/nodes_cache_fetcher.cpp
+++ b/src/nodes_cache_fetcher.cpp
@@ -5,6 +5,7 @@
 #include <string>
 #include <vector>
 #include <numeric>
+#include <stdexcept>
 #include <errno.h>
 #include <fcntl.h>
 #include <kj/exception.h>
@@ -126,6 +127,10 @@ namespace TrRouting
 
         cNode::Reader capnpT = capnpTMessage.getRoot<cNode>();
         const unsigned int transferableNodesCount {capnpT.getTransferableNodesUuids().size()};
+        if (capnpT.getTransferableNodesTravelTimes().size() < transferableNodesCount || capnpT.getTransferableNodesDistances().size() < transferableNodesCount)
+        {
+          throw std::range_error("missing travel times or distances of transferable nodes");
+        }
 
         std::vector<NodeTimeDistance> transferableNodes;
         std::vector<NodeTimeDistance> reverseTransferableNodes;
@@ -145,6 +150,10 @@ namespace TrRouting
           
           int travelTime = capnpT.getTransferableNodesTravelTimes()[j];
           int distance = capnpT.getTransferableNodesDistances()[j];
+          if (travelTime < 0)
+          {
+            throw std::range_error("negative travel time to transferable node " + nodeUuidStr);
+          }
           transferableNodes.push_back(NodeTimeDistance(ts.at(nodeUuid),
                                                        travelTime,
                                                        distance));
@@ -168,6 +177,12 @@ namespace TrRouting
         close(fd);
         return -EBADMSG;
       }
+      catch (const std::exception& e)
+      {
+        spdlog::error("-- Error reading node cache file -- {}: {}", nodeCacheFileNamePath, e.what());
+        close(fd);
+        return -EINVAL;
+      }
       close(fd);
     }
 
-- 
2.43.0


From 621ede83026d6cf71632d68ef8b6d8bae7f2da46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:20 +0000
Subject: [PATCH 26/37] fix: do not read past the end of the lists of od trips
 cache files

---
 src/od_trips_cache_fetcher.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/od_trips_cache_fetcher.cpp b/src/od_trips_cache_fetcher.cpp
index e907b24..0992a49 100644
--- a/src/od_trips_cache_fetcher.cpp
+++ b/src/od_trips_cache_fetcher.cpp
@@ -152,6 +152,10 @@ namespace TrRouting
             destination->longitude    = ((double)capnpT.getDestinationLongitude()) / 1000000.0;
 
             const unsigned int originNodesCount {capnpT.getOriginNodesUuids().size()};
+            if (capnpT.getOriginNodesTravelTimes().size() < originNodesCount || capnpT.getOriginNodesDistances().size() < originNodesCount)
+            {
+              throw std::range_error("missing travel times or distances of origin nodes");
+            }
             std::vector<NodeTimeDistance> originNodes;
             for (unsigned int j = 0; j < originNodesCount; j++)
             {
@@ -162,6 +166,10 @@ namespace TrRouting
             }
 
             const unsigned int destinationNodesCount {capnpT.getDestinationNodesUuids().size()};
+            if (capnpT.getDestinationNodesTravelTimes().size() < destinationNodesCount || capnpT.getDestinationNodesDistances().size() < destinationNodesCount)
+            {
+              throw std::range_error("missing travel times or distances of destination nodes");
+            }
             std::vector<NodeTimeDistance> destinationNodes;
             for (unsigned int j = 0; j < destinationNodesCount; j++)
             {
-- 
2.43.0


From 5b6db26064d596ce80072f3cdeff604e165d3e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:42 +0000
Subject: [PATCH 27/37] fix: stop at the first missing persons or od trips
 cache file, the count may be wrong

---
 src/od_trips_cache_fetcher.cpp | 1 +
 src/persons_cache_fetcher.cpp  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/od_trips_cache_fetcher.cpp b/src/od_trips_cache_fetcher.cpp
index 0992a49..675e712 100644
--- a/src/od_trips_cache_fetcher.cpp
+++ b/src/od_trips_cache_fetcher.cpp
@@ -123,6 +123,7 @@ namespace TrRouting
           if (err == ENOENT)
           {
             spdlog::error("missing {} cache files!", filePath);
+            break; // The files are numbered, do not look for those that would come next
           }
           else
           {
diff --git a/src/persons_cache_fetcher.cpp b/src/persons_cache_fetcher.cpp
index b293067..0ed7da4 100644
--- a/src/persons_cache_fetcher.cpp
+++ b/src/persons_cache_fetcher.cpp
@@ -134,6 +134,7 @@ namespace TrRouting
           if (err == ENOENT)
           {
             spdlog::error("missing {} cache files!", filePath);
+            break; // The files are numbered, do not look for those that would come next
           }
           else
           {
-- 
2.43.0


From 135d33f9a24d052c50ed95839cf60f6c3b70164e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:24 +0000
Subject: [PATCH 28/37] fix: do not crash on inconsistent line cache files

---
 src/trips_and_connections_cache_fetcher.cpp | 44 +++++++++++++++++----
 1 file changed, 37 insertions(+), 7 deletions(-)

diff --git a/src/trips_and_connections_cache_fetcher.cpp b/src/trips_and_connections_cache_fetcher.cpp
index b1dfb94..e0ae084 100644
--- a/src/trips_and_connections_cache_fetcher.cpp
+++ b/src/trips_and_connections_cache_fetcher.cpp
@@ -76,7 +76,38 @@ namespace TrRouting
               tripUuid     = uuidGenerator(tripUuidStr);
               pathUuid     = uuidGenerator(pathUuidStr);
               Path &path = paths.at(pathUuid);
-              
+
+              nodeTimesCount             = capnpTrip.getNodeArrivalTimesSeconds().size();
+              auto arrivalTimesSeconds   = capnpTrip.getNodeArrivalTimesSeconds();
+              auto departureTimesSeconds = capnpTrip.getNodeDepartureTimesSeconds();
+              auto canBoards             = capnpTrip.getNodesCanBoard();
+              auto canUnboards           = capnpTrip.getNodesCanUnboard();
+              if (trips.count(tripUuid) > 0
+                  || path.nodesRef.size()         < nodeTimesCount
+                  || departureTimesSeconds.size() < nodeTimesCount
+                  || canBoards.size()             < nodeTimesCount
+                  || canUnboards.size()           < nodeTimesCount)
+              {
+                spdlog::error("Ignoring trip {} in file {}: it is duplicated, or does not match its path", tripUuidStr, cacheFilePath);
+                continue;
+              }
+              // The vehicle must not go back in time, and the times must leave room for walking and waiting
+              bool validTimes {true};
+              int previousTime {0};
+              for (unsigned long nodeTimeI = 0; nodeTimeI + 1 < nodeTimesCount; nodeTimeI++)
+              {
+                validTimes = validTimes
+                  && departureTimesSeconds[nodeTimeI] >= previousTime
+                  && arrivalTimesSeconds[nodeTimeI + 1] >= departureTimesSeconds[nodeTimeI]
+                  && arrivalTimesSeconds[nodeTimeI + 1] < MAX_INT / 2;
+                previousTime = arrivalTimesSeconds[nodeTimeI + 1];
+              }
+              if (!validTimes)
+              {
+                spdlog::error("Ignoring trip {} in file {}: its times are invalid", tripUuidStr, cacheFilePath);
+                continue;
+              }
+
               trips.emplace(tripUuid, Trip(tripUuid,
                                            line.agency,
                                            line,
@@ -92,14 +123,9 @@ namespace TrRouting
               // TODO This should probably be done in the Trip constructor (setting the back reference)
               path.tripsRef.push_back(trip);
 
-              nodeTimesCount             = capnpTrip.getNodeArrivalTimesSeconds().size();
-              auto arrivalTimesSeconds   = capnpTrip.getNodeArrivalTimesSeconds();
-              auto departureTimesSeconds = capnpTrip.getNodeDepartureTimesSeconds();
-              auto canBoards             = capnpTrip.getNodesCanBoard();
-              auto canUnboards           = capnpTrip.getNodesCanUnboard();
               trip.connectionDepartureTimes.resize(nodeTimesCount);
               // nodeTimesCount - 1, since we process node pairs, we have to stop and the second from last
-              for (unsigned long nodeTimeI = 0; nodeTimeI < nodeTimesCount - 1; nodeTimeI++)
+              for (unsigned long nodeTimeI = 0; nodeTimeI + 1 < nodeTimesCount; nodeTimeI++)
               {
 
                   connections.push_back(Connection(
@@ -131,6 +157,10 @@ namespace TrRouting
         // TODO Do something about faulty cache files?
         spdlog::error("-- Error reading line cache file -- {}: {}", cacheFilePath, e.getDescription().cStr());
       }
+      catch (const std::exception& e)
+      {
+        spdlog::error("-- Error reading line cache file -- {}: {}", cacheFilePath, e.what());
+      }
 
       close(fd);
     }
-- 
2.43.0


From e2397648820115e099f68f7d5ee3cde6e06b0003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:08 +0000
Subject: [PATCH 29/37] fix: do not shift the distances of a path when one is
 missing

---
 src/paths_cache_fetcher.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/paths_cache_fetcher.cpp b/src/paths_cache_fetcher.cpp
index 4274e61..1019166 100644
--- a/src/paths_cache_fetcher.cpp
+++ b/src/paths_cache_fetcher.cpp
@@ -81,11 +81,12 @@ namespace TrRouting
 
         for (size_t i=0; i < nodesRef.size(); i++)
         {
-          if (jsonData["segments"][i]["distanceMeters"] != nullptr)
+          // Those after a missing value can't be kept, since they would take its place
+          if (jsonData["segments"][i]["distanceMeters"] != nullptr && distancesMeters.size() == i)
           {
             distancesMeters.push_back(jsonData["segments"][i]["distanceMeters"]);
           }
-          if (jsonData["segments"][i]["travelTimeSeconds"] != nullptr)
+          if (jsonData["segments"][i]["travelTimeSeconds"] != nullptr && travelTimesSeconds.size() == i)
           {
             travelTimesSeconds.push_back(jsonData["segments"][i]["travelTimeSeconds"]);
           }
-- 
2.43.0


From 08c740bb5f2cd8304fa9a334ec35d2bcbcf5eed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:19 +0000
Subject: [PATCH 30/37] fix: answer when the name of a line, stop or agency is
 not valid UTF-8

---
 .../src/transit_routing_http_server.cpp          | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/connection_scan_algorithm/src/transit_routing_http_server.cpp b/connection_scan_algorithm/src/transit_routing_http_server.cpp
index b07ee11..65cd4f0 100644
--- a/connection_scan_algorithm/src/transit_routing_http_server.cpp
+++ b/connection_scan_algorithm/src/transit_routing_http_server.cpp
@@ -312,20 +312,20 @@ int main(int argc, char** argv) {
         if (queryParams.isWithAlternatives())
         {
           TrRouting::AlternativesResult alternativeResult = calculator.alternativesRouting(queryParams);
-          response = ResultToV2Response::resultToJsonString(alternativeResult, queryParams).dump(2);
+          response = ResultToV2Response::resultToJsonString(alternativeResult, queryParams).dump(2, ' ', false, nlohmann::json::error_handler_t::replace);
         }
         else
         {
           std::unique_ptr<TrRouting::SingleCalculationResult> routingResult = calculator.calculateSingle(queryParams);
           if (routingResult.get() != nullptr) {
-            response = ResultToV2Response::resultToJsonString(*routingResult.get(), queryParams).dump(2);
+            response = ResultToV2Response::resultToJsonString(*routingResult.get(), queryParams).dump(2, ' ', false, nlohmann::json::error_handler_t::replace);
           }
         }
 
         spdlog::info("-- route request complete -- {}", currentRequestId);
 
       } catch (NoRoutingFoundException &e) {
-        response = ResultToV2Response::noRoutingFoundResponse(queryParams, e.getReason()).dump(2);
+        response = ResultToV2Response::noRoutingFoundResponse(queryParams, e.getReason()).dump(2, ' ', false, nlohmann::json::error_handler_t::replace);
         spdlog::info("-- route request not found -- {}", currentRequestId);
 
       }
@@ -384,20 +384,20 @@ int main(int argc, char** argv) {
         if (queryParams.isWithAlternatives())
         {
           TrRouting::AlternativesResult alternativeResult = calculator.alternativesRouting(queryParams);
-          response = ResultToV2SummaryResponse::resultToJsonString(alternativeResult, queryParams).dump(2);
+          response = ResultToV2SummaryResponse::resultToJsonString(alternativeResult, queryParams).dump(2, ' ', false, nlohmann::json::error_handler_t::replace);
         }
         else
         {
           std::unique_ptr<TrRouting::SingleCalculationResult> routingResult = calculator.calculateSingle(queryParams);
           if (routingResult.get() != nullptr) {
-            response = ResultToV2SummaryResponse::resultToJsonString(*routingResult.get(), queryParams).dump(2);
+            response = ResultToV2SummaryResponse::resultToJsonString(*routingResult.get(), queryParams).dump(2, ' ', false, nlohmann::json::error_handler_t::replace);
           }
         }
 
         spdlog::info("-- summary request complete -- {}", currentRequestId);
 
       } catch (NoRoutingFoundException &e) {
-        response = ResultToV2SummaryResponse::noRoutingFoundResponse(queryParams, e.getReason()).dump(2);
+        response = ResultToV2SummaryResponse::noRoutingFoundResponse(queryParams, e.getReason()).dump(2, ' ', false, nlohmann::json::error_handler_t::replace);
         spdlog::info("-- summary request not found -- {}", currentRequestId);
       }
 
@@ -454,13 +454,13 @@ int main(int argc, char** argv) {
       try {
         std::unique_ptr<AllNodesResult> accessibilityResult = calculator.calculateAllNodes(queryParams);
         if (accessibilityResult.get() != nullptr) {
-          response = ResultToV2AccessibilityResponse::resultToJsonString(*accessibilityResult.get(), queryParams).dump(2);
+          response = ResultToV2AccessibilityResponse::resultToJsonString(*accessibilityResult.get(), queryParams).dump(2, ' ', false, nlohmann::json::error_handler_t::replace);
         }
 
         spdlog::info("-- accessibility request complete -- {}", currentRequestId);
 
       } catch (NoRoutingFoundException &e) {
-        response = ResultToV2AccessibilityResponse::noRoutingFoundResponse(queryParams, e.getReason()).dump(2);
+        response = ResultToV2AccessibilityResponse::noRoutingFoundResponse(queryParams, e.getReason()).dump(2, ' ', false, nlohmann::json::error_handler_t::replace);
         spdlog::info("-- accessibility request not found -- {}", currentRequestId);
       }
 
-- 
2.43.0


From b067d4e03f36d96fe01d36884ccc48e31ef38f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:57 +0000
Subject: [PATCH 31/37] fix: ignore the walking router's entries in excess of
 the requested nodes

---
 src/osrmgeofilter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osrmgeofilter.cpp b/src/osrmgeofilter.cpp
index 6b95f1c..18cb980 100644
--- a/src/osrmgeofilter.cpp
+++ b/src/osrmgeofilter.cpp
@@ -95,7 +95,7 @@ namespace TrRouting {
       {
         int travelTimeSeconds;
         int distanceMeters;
-        for (int i = 1; i < numberOfDurations; i++) // ignore first (duration with itself)
+        for (int i = 1; i < numberOfDurations && i <= (int)birdDistanceAccessibleNodeIndexes.size(); i++) // ignore first (duration with itself)
         {
           travelTimeSeconds = (int)ceil((float)responseJson["durations"][0][i]);
           if (travelTimeSeconds <= maxWalkingTravelTime)
-- 
2.43.0


From 81e4226cc83b7a2940098522e9d5e368fcd37add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:41 +0000
Subject: [PATCH 32/37] fix: do not overflow the walking distance from a place
 far from everything

---
 src/euclideangeofilter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/euclideangeofilter.cpp b/src/euclideangeofilter.cpp
index 8abdfed..ce511db 100644
--- a/src/euclideangeofilter.cpp
+++ b/src/euclideangeofilter.cpp
@@ -1,6 +1,7 @@
 #include "euclideangeofilter.hpp"
 #include "point.hpp"
 #include "node.hpp"
+#include "toolbox.hpp" //MAX_INT
 #include "spdlog/spdlog.h"
 
 namespace TrRouting
@@ -26,7 +27,7 @@ namespace TrRouting
     {
       distanceMetersSquared = calculateNodeDistanceSquared(node.point.get(), point, lengthOfOneDegree);
 
-      if (distanceMetersSquared <= maxDistanceMetersSquared)
+      if (distanceMetersSquared <= maxDistanceMetersSquared && sqrt(distanceMetersSquared) < MAX_INT) // the distance has to fit in an int
       {
         int distanceMeters = sqrt(distanceMetersSquared);
         int travelTimeSeconds = distanceMeters / walkingSpeedMetersPerSecond;
-- 
2.43.0


From 0909020f688fea4495f1fa771669c7c81cbed121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:20 +0000
Subject: [PATCH 33/37] verif: scheduling points in the per-scenario cache (off
 unless TRROUTING_VERIF)

---
 src/transit_data.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/transit_data.cpp b/src/transit_data.cpp
index 5ff147d..16983fb 100644
--- a/src/transit_data.cpp
+++ b/src/transit_data.cpp
@@ -17,6 +17,13 @@
 #include "connection_cache.hpp"
 #include "connection_set.hpp"
 
+#ifdef TRROUTING_VERIF
+// Scheduling points for the model checker of the concurrent requests, which defines this function
+extern "C" void trrouting_verif_point(const char * name);
+#define VERIF_POINT(name) trrouting_verif_point(name)
+#else
+#define VERIF_POINT(name)
+#endif
 
 namespace TrRouting {
 
@@ -308,8 +315,10 @@ namespace TrRouting {
   std::shared_ptr<ConnectionSet> TransitData::getConnectionsForScenario(const Scenario & scenario) const {
     std::optional<std::shared_ptr<ConnectionSet>> optCurrentCache = scenarioConnectionCache->get(scenario.uuid);
     if (optCurrentCache.has_value()) {
+      VERIF_POINT("cache-hit");
       return optCurrentCache.value();
     }
+    VERIF_POINT("cache-miss");
 
     spdlog::debug("Computing connection cache for scenario {}...", boost::uuids::to_string(scenario.uuid));
     // Create the cache for scenario
@@ -429,7 +438,9 @@ namespace TrRouting {
     }
 
     std::shared_ptr<ConnectionSet> currentCache = std::make_shared<ConnectionSet>(cachedTrips, scenarioForwardConnections, scenarioReverseConnections);
+    VERIF_POINT("cache-publish");
     scenarioConnectionCache->set(scenario.uuid, currentCache);
+    VERIF_POINT("cache-published");
     return currentCache;
     
   }
-- 
2.43.0


From 20e486e2fd40205a1ac5fd321b8ea8df12981b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:11 +0000
Subject: [PATCH 34/37] fix: do not overflow the arrival accessibility travel
 time with a huge minimum waiting time

---
 connection_scan_algorithm/src/reverse_journey.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/connection_scan_algorithm/src/reverse_journey.cpp b/connection_scan_algorithm/src/reverse_journey.cpp
index 995a622..6399d38 100644
--- a/connection_scan_algorithm/src/reverse_journey.cpp
+++ b/connection_scan_algorithm/src/reverse_journey.cpp
@@ -330,7 +330,8 @@ namespace TrRouting
       if (reverseAccessJourneysSteps.at(resultingNode.uid).getFinalEnterConnection().has_value()) {
         //TODO Could move this operation into a function of class Connection
         int departureTimeD = reverseAccessJourneysSteps.at(resultingNode.uid).getFinalEnterConnection().value().get().getDepartureTime() - reverseAccessJourneysSteps.at(resultingNode.uid).getFinalEnterConnection().value().get().getMinWaitingTimeOrDefault(parameters.getMinWaitingTimeSeconds());
-        if (arrivalTimeSeconds - departureTimeD <=  parameters.getMaxTotalTravelTimeSeconds()) {
+        // the difference may exceed an int when the minimum waiting time is huge
+        if (static_cast<long long>(arrivalTimeSeconds) - departureTimeD <= parameters.getMaxTotalTravelTimeSeconds()) {
           reachableNodesCount++;
 
           AccessibleNodes node = AccessibleNodes(
-- 
2.43.0


From 1e1d05e4f60b2babc98e1601520b57a11688375d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:33 +0000
Subject: [PATCH 35/37] fix: do not die from a malformed Content-Length in the
 walking router's reply

---
 include/client_http.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/client_http.hpp b/include/client_http.hpp
index 666b5f0..58761aa 100644
--- a/include/client_http.hpp
+++ b/include/client_http.hpp
@@ -574,7 +574,14 @@ namespace SimpleWeb {
 
           auto header_it = session->response->header.find("Content-Length");
           if(header_it != session->response->header.end()) {
-            auto content_length = std::stoull(header_it->second);
+            unsigned long long content_length = 0;
+            try {
+              content_length = std::stoull(header_it->second);
+            }
+            catch(...) {
+              session->callback(make_error_code::make_error_code(errc::protocol_error));
+              return;
+            }
             if(content_length > num_additional_bytes)
               this->read_content(session, content_length - num_additional_bytes);
             else
-- 
2.43.0


From 70bbb55aa0aa9db7a76fa0d026cb4d6094522ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:35 +0000
Subject: [PATCH 36/37] fix: ignore events after the end of a synchronous
 request to the walking router

---
 include/client_http.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/client_http.hpp b/include/client_http.hpp
index 58761aa..f3fbeec 100644
--- a/include/client_http.hpp
+++ b/include/client_http.hpp
@@ -458,8 +458,10 @@ namespace SimpleWeb {
           response_promise.set_exception(std::make_exception_ptr(system_error(ec)));
           *stop_future_handlers = true;
         }
-        else if(response_->content.end)
+        else if(response_->content.end) {
+          *stop_future_handlers = true; // The promise does not outlive this call
           response_promise.set_value(response);
+        }
       });
 
       return response_promise.get_future().get();
-- 
2.43.0


From 602154065461305c76f43a63e4a7dcbe23387928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:43 +0000
Subject: [PATCH 37/37] fix: connections that take no time were not met before
 those they lead to

With a minimum waiting time of 0 a trip that leaves a stop at the moment
another one arrives there over a hop without duration can be boarded.
The connections were ordered by departure time and trip only, so that
whether the scans found the transfer depended on the trips' uuids.
---
 src/transit_data.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/transit_data.cpp b/src/transit_data.cpp
index 16983fb..9586319 100644
--- a/src/transit_data.cpp
+++ b/src/transit_data.cpp
@@ -196,7 +196,7 @@ namespace TrRouting {
     try
     {
       spdlog::info("Sorting connections...");
-      // Sort forward connections by departure time, trip id, sequence
+      // Sort forward connections by departure time, arrival time, trip id, sequence
       //TODO Maybe this could be handled by an operator in the connection class or at least some function that we could bind
       std::stable_sort(forwardConnections.begin(), forwardConnections.end(), [](const std::reference_wrapper<const Connection>& connectionA, const std::reference_wrapper<const Connection>& connectionB)
       {
@@ -208,6 +208,15 @@ namespace TrRouting {
         {
           return false;
         }
+        // A connection that takes no time must come before those that leave where it arrives
+        if (connectionA.get().getArrivalTime() < connectionB.get().getArrivalTime())
+        {
+          return true;
+        }
+        else if (connectionA.get().getArrivalTime() > connectionB.get().getArrivalTime())
+        {
+          return false;
+        }
         //TODO We could do something  better than comparing uuud for trip. We just need something to have a stable sort
         if (connectionA.get().getTrip().uuid < connectionB.get().getTrip().uuid)
         {
@@ -227,7 +236,7 @@ namespace TrRouting {
         }
         return false;
       });
-      // Sort reverse connection by arrival time, trip and sequence
+      // Sort reverse connection by arrival time, departure time, trip and sequence
       std::stable_sort(reverseConnections.begin(), reverseConnections.end(), [](const std::reference_wrapper<const Connection>& connectionA, const std::reference_wrapper<const Connection>& connectionB)
       {
         if (connectionA.get().getArrivalTime() > connectionB.get().getArrivalTime())
@@ -238,6 +247,15 @@ namespace TrRouting {
         {
           return false;
         }
+        // A connection that takes no time must come before those that arrive where it leaves
+        if (connectionA.get().getDepartureTime() > connectionB.get().getDepartureTime())
+        {
+          return true;
+        }
+        else if (connectionA.get().getDepartureTime() < connectionB.get().getDepartureTime())
+        {
+          return false;
+        }
         if (connectionA.get().getTrip().uuid > connectionB.get().getTrip().uuid) // here we need to reverse sequence!
         {
           return true;
-- 
2.43.0

