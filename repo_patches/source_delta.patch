From 569962c718d8bbf0b5e1f478f97143a7cf6b713d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:32 +0000
Subject: [PATCH 01/19] fix: check regulation terminal before use in ratio tap
 changer validation

---
 src/iidm/ValidationUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iidm/ValidationUtils.cpp b/src/iidm/ValidationUtils.cpp
index e727de3..105d817 100644
--- a/src/iidm/ValidationUtils.cpp
+++ b/src/iidm/ValidationUtils.cpp
@@ -331,7 +331,7 @@ void checkRatioTapChangerRegulation(const Validable& validable, bool regulating,
         if (!regulationTerminal) {
             throwExceptionOrWarningForRtc(validable, loadTapChangingCapabilities, "a regulation terminal has to be set for a regulating ratio tap changer");
         }
-        if (!stdcxx::areSame(regulationTerminal.get().getVoltageLevel().getNetwork(), network)) {
+        if (regulationTerminal && !stdcxx::areSame(regulationTerminal.get().getVoltageLevel().getNetwork(), network)) {
             throwExceptionOrWarningForRtc(validable, loadTapChangingCapabilities, "regulation terminal is not part of the network");
         }
     }
-- 
2.43.0


From 54e9ef36fdd1d1ecee98b45c959ac64406e54814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:32 +0000
Subject: [PATCH 02/19] fix: validate the new value in
 RatioTapChanger::setLoadTapChangingCapabilities

---
 src/iidm/RatioTapChanger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iidm/RatioTapChanger.cpp b/src/iidm/RatioTapChanger.cpp
index 854d427..f3134ed 100644
--- a/src/iidm/RatioTapChanger.cpp
+++ b/src/iidm/RatioTapChanger.cpp
@@ -56,7 +56,7 @@ void RatioTapChanger::remove() {
 }
 
 RatioTapChanger& RatioTapChanger::setLoadTapChangingCapabilities(bool loadTapChangingCapabilities) {
-    checkRatioTapChangerRegulation(getParent(), isRegulating(), m_loadTapChangingCapabilities, getRegulationTerminal(), getTargetV(), getNetwork());
+    checkRatioTapChangerRegulation(getParent(), isRegulating(), loadTapChangingCapabilities, getRegulationTerminal(), getTargetV(), getNetwork());
     m_loadTapChangingCapabilities = loadTapChangingCapabilities;
     return *this;
 }
-- 
2.43.0


From b0b4afb30022717da9e0360165105376f9367ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:32 +0000
Subject: [PATCH 03/19] fix: validate phase regulation when switching
 PhaseTapChanger regulation on

---
 include/powsybl/iidm/PhaseTapChanger.hpp | 2 ++
 src/iidm/PhaseTapChanger.cpp             | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/include/powsybl/iidm/PhaseTapChanger.hpp b/include/powsybl/iidm/PhaseTapChanger.hpp
index 1b32814..3878a3f 100644
--- a/include/powsybl/iidm/PhaseTapChanger.hpp
+++ b/include/powsybl/iidm/PhaseTapChanger.hpp
@@ -35,6 +35,8 @@ public: // MultiVariantObject
 public: // TapChanger
     void remove() override;
 
+    PhaseTapChanger& setRegulating(bool regulating) override;
+
     PhaseTapChanger& setRegulationTerminal(const stdcxx::Reference<Terminal>& regulationTerminal) override;
 
 public:
diff --git a/src/iidm/PhaseTapChanger.cpp b/src/iidm/PhaseTapChanger.cpp
index d607d70..6f924e4 100644
--- a/src/iidm/PhaseTapChanger.cpp
+++ b/src/iidm/PhaseTapChanger.cpp
@@ -57,6 +57,11 @@ void PhaseTapChanger::remove() {
     return getParent().setPhaseTapChanger(std::unique_ptr<PhaseTapChanger>());
 }
 
+PhaseTapChanger& PhaseTapChanger::setRegulating(bool regulating) {
+    checkPhaseTapChangerRegulation(getParent(), m_regulationMode, getRegulationValue(), regulating, getRegulationTerminal(), getNetwork());
+    return TapChanger::setRegulating(regulating);
+}
+
 PhaseTapChanger& PhaseTapChanger::setRegulationMode(const RegulationMode& regulationMode) {
     checkPhaseTapChangerRegulation(getParent(), regulationMode, getRegulationValue(), isRegulating(), getRegulationTerminal(), getNetwork());
     m_regulationMode = regulationMode;
-- 
2.43.0


From 7575fd822640c2958d59fc72e6b2ce9390763d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:32 +0000
Subject: [PATCH 04/19] fix: keep the selected step of every variant in
 TapChanger::setLowTapPosition

---
 include/powsybl/iidm/TapChanger.hxx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/powsybl/iidm/TapChanger.hxx b/include/powsybl/iidm/TapChanger.hxx
index 56afb8e..7282613 100644
--- a/include/powsybl/iidm/TapChanger.hxx
+++ b/include/powsybl/iidm/TapChanger.hxx
@@ -167,7 +167,9 @@ template<typename H, typename C, typename S>
 C& TapChanger<H, C, S>::setLowTapPosition(long lowTapPosition) {
     long oldValue = m_lowTapPosition;
     m_lowTapPosition = lowTapPosition;
-    m_tapPosition[getNetwork().getVariantIndex()] = getTapPosition() + m_lowTapPosition - oldValue;
+    for (long& tapPosition : m_tapPosition) {
+        tapPosition += m_lowTapPosition - oldValue;
+    }
 
     return static_cast<C&>(*this);
 }
-- 
2.43.0


From d29fcd0685907d556988cdbd37999a02b2c0dd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:32 +0000
Subject: [PATCH 05/19] fix: reduce SlackTerminal storage by the number of
 removed variants

---
 src/iidm/extensions/SlackTerminal.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iidm/extensions/SlackTerminal.cpp b/src/iidm/extensions/SlackTerminal.cpp
index b0f1ca3..a8cc5a5 100644
--- a/src/iidm/extensions/SlackTerminal.cpp
+++ b/src/iidm/extensions/SlackTerminal.cpp
@@ -82,7 +82,7 @@ bool SlackTerminal::isEmpty() const {
 }
 
 void SlackTerminal::reduceVariantArraySize(unsigned long number) {
-    m_terminals.resize(number); // remove elements from the top to avoid moves inside the array
+    m_terminals.resize(m_terminals.size() - number); // remove elements from the top to avoid moves inside the array
 }
 
 void SlackTerminal::reset(Network& network) {
-- 
2.43.0


From 825dca3bb6ebd8676e1d4945817d3c119bddc6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:03 +0000
Subject: [PATCH 06/19] fix: reject an invalid clone request before changing
 the variants

---
 src/iidm/VariantManager.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/iidm/VariantManager.cpp b/src/iidm/VariantManager.cpp
index c38ad1d..4cf489b 100644
--- a/src/iidm/VariantManager.cpp
+++ b/src/iidm/VariantManager.cpp
@@ -91,16 +91,24 @@ void VariantManager::cloneVariant(const std::string& sourceVariantId, const std:
     std::lock_guard<std::mutex> lock(m_variantMutex);
 
     unsigned long sourceIndex = getVariantIndex(sourceVariantId);
+    if (!mayOverwrite) {
+        // check all the targets before changing anything
+        std::set<std::string> newVariantIds;
+        for (const auto& targetVariantId : targetVariantIds) {
+            if (m_variantsById.find(targetVariantId) != m_variantsById.end() || !newVariantIds.insert(targetVariantId).second) {
+                throw PowsyblException(stdcxx::format("Target variant '%1%' already exists", targetVariantId));
+            }
+        }
+    }
     unsigned long initVariantArraySize = m_variantArraySize;
     unsigned long extendedCount = 0;
     std::set<unsigned long> recycled;
     std::set<unsigned long> overwritten;
     for (const auto& targetVariantId : targetVariantIds) {
         if (m_variantsById.find(targetVariantId) != m_variantsById.end()) {
-            if (mayOverwrite) {
+            // a target given twice may already have been created by this call
+            if (m_variantsById[targetVariantId] < initVariantArraySize) {
                 overwritten.emplace(m_variantsById[targetVariantId]);
-            } else {
-                throw PowsyblException(stdcxx::format("Target variant '%1%' already exists", targetVariantId));
             }
         }
         else if (m_unusedIndexes.empty()) {
-- 
2.43.0


From b08413cf5bac210dbb9efe70e691fe863a52ed78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:13 +0000
Subject: [PATCH 07/19] fix: keep the thread-local working variant of each
 network apart

The index was one thread_local per thread, shared by every network with
multi-thread access: setting the working variant of a network changed the one
of all the others used by the same thread.
---
 .../ThreadLocalMultipleVariantContext.cpp     | 31 ++++++++++++++-----
 .../ThreadLocalMultipleVariantContext.hpp     | 19 +++++++-----
 2 files changed, 35 insertions(+), 15 deletions(-)

diff --git a/src/iidm/ThreadLocalMultipleVariantContext.cpp b/src/iidm/ThreadLocalMultipleVariantContext.cpp
index 3eb7ab0..a86196e 100644
--- a/src/iidm/ThreadLocalMultipleVariantContext.cpp
+++ b/src/iidm/ThreadLocalMultipleVariantContext.cpp
@@ -7,6 +7,7 @@
 
 #include "ThreadLocalMultipleVariantContext.hpp"
 
+#include <atomic>
 #include <thread>
 
 #include <powsybl/PowsyblException.hpp>
@@ -16,31 +17,45 @@ namespace powsybl {
 
 namespace iidm {
 
-thread_local stdcxx::optional<unsigned long> ThreadLocalMultipleVariantContext::m_index;
+namespace {
+
+unsigned long nextContextId() {
+    static std::atomic<unsigned long> s_nextContextId{0UL};
+    return s_nextContextId++;
+}
+
+}  // namespace
+
+thread_local std::map<unsigned long, unsigned long> ThreadLocalMultipleVariantContext::m_indexByContext;
+
+ThreadLocalMultipleVariantContext::ThreadLocalMultipleVariantContext() :
+    m_contextId(nextContextId()) {
+}
 
 unsigned long ThreadLocalMultipleVariantContext::getVariantIndex() const {
-    if (m_index) {
-        return *m_index;
+    const auto& it = m_indexByContext.find(m_contextId);
+    if (it != m_indexByContext.end()) {
+        return it->second;
     }
     throw PowsyblException(stdcxx::format("Variant index not set for current thread %1%", std::this_thread::get_id()));
 }
 
 bool ThreadLocalMultipleVariantContext::isIndexSet() const {
-    return static_cast<bool>(m_index);
+    return m_indexByContext.find(m_contextId) != m_indexByContext.end();
 }
 
 void ThreadLocalMultipleVariantContext::reset() {
-    m_index.reset();
+    m_indexByContext.erase(m_contextId);
 }
 
 void ThreadLocalMultipleVariantContext::resetIfVariantIndexIs(unsigned long index) {
-    if (m_index && m_index == index) {
-        m_index.reset();
+    if (isIndexSet() && getVariantIndex() == index) {
+        reset();
     }
 }
 
 void ThreadLocalMultipleVariantContext::setVariantIndex(unsigned long index) {
-    m_index = index;
+    m_indexByContext[m_contextId] = index;
 }
 
 }  // namespace iidm
diff --git a/src/iidm/ThreadLocalMultipleVariantContext.hpp b/src/iidm/ThreadLocalMultipleVariantContext.hpp
index 0c8d9a1..140c68f 100644
--- a/src/iidm/ThreadLocalMultipleVariantContext.hpp
+++ b/src/iidm/ThreadLocalMultipleVariantContext.hpp
@@ -8,8 +8,9 @@
 #ifndef POWSYBL_IIDM_THREADLOCALMULTIPLEVARIANTCONTEXT_HPP
 #define POWSYBL_IIDM_THREADLOCALMULTIPLEVARIANTCONTEXT_HPP
 
+#include <map>
+
 #include <powsybl/iidm/VariantContext.hpp>
-#include <powsybl/stdcxx/optional.hpp>
 
 namespace powsybl {
 
@@ -26,22 +27,26 @@ public:  // VariantContext
     void setVariantIndex(unsigned long index) override;
 
 public:
-    ThreadLocalMultipleVariantContext() = default;
+    ThreadLocalMultipleVariantContext();
 
-    ThreadLocalMultipleVariantContext(const ThreadLocalMultipleVariantContext&) = default;
+    ThreadLocalMultipleVariantContext(const ThreadLocalMultipleVariantContext&) = delete;
 
-    ThreadLocalMultipleVariantContext(ThreadLocalMultipleVariantContext&&) noexcept = default;
+    ThreadLocalMultipleVariantContext(ThreadLocalMultipleVariantContext&&) = delete;
 
     ~ThreadLocalMultipleVariantContext() noexcept override = default;
 
-    ThreadLocalMultipleVariantContext& operator=(const ThreadLocalMultipleVariantContext&) = default;
+    ThreadLocalMultipleVariantContext& operator=(const ThreadLocalMultipleVariantContext&) = delete;
 
-    ThreadLocalMultipleVariantContext& operator=(ThreadLocalMultipleVariantContext&&) noexcept = default;
+    ThreadLocalMultipleVariantContext& operator=(ThreadLocalMultipleVariantContext&&) = delete;
 
     void reset();
 
 private:
-    static thread_local stdcxx::optional<unsigned long> m_index;
+    // variant index of the current thread, for each context (a thread may work on several networks)
+    static thread_local std::map<unsigned long, unsigned long> m_indexByContext;
+
+private:
+    unsigned long m_contextId;
 };
 
 }  // namespace iidm
-- 
2.43.0


From 5f3161229925c5df03fdb5a11361bad7bbf721d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:30 +0000
Subject: [PATCH 08/19] fix: keep the aliases of a network that is moved

---
 src/iidm/NetworkIndex.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/iidm/NetworkIndex.cpp b/src/iidm/NetworkIndex.cpp
index 5e41e5d..a0b57da 100644
--- a/src/iidm/NetworkIndex.cpp
+++ b/src/iidm/NetworkIndex.cpp
@@ -39,7 +39,8 @@ void NetworkIndex::Deleter::operator()(Identifiable* ptr) const {
 
 NetworkIndex::NetworkIndex(Network& network, NetworkIndex&& networkIndex) noexcept :
     m_objectsById(std::move(networkIndex.m_objectsById)),
-    m_objectsByType(std::move(networkIndex.m_objectsByType)) {
+    m_objectsByType(std::move(networkIndex.m_objectsByType)),
+    m_idByAlias(std::move(networkIndex.m_idByAlias)) {
 
     // Replace the references to the old network by the new one
     m_objectsById[network.getId()].reset(&network);
-- 
2.43.0


From e89fa51720d7552380cdba009d8899c5a8d5de80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:05 +0000
Subject: [PATCH 09/19] fix: assert on the existence of a detached terminal's
 node, not on the number of nodes

---
 src/iidm/NodeBreakerVoltageLevel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iidm/NodeBreakerVoltageLevel.cpp b/src/iidm/NodeBreakerVoltageLevel.cpp
index d4d080a..4746a79 100644
--- a/src/iidm/NodeBreakerVoltageLevel.cpp
+++ b/src/iidm/NodeBreakerVoltageLevel.cpp
@@ -130,7 +130,7 @@ void NodeBreakerVoltageLevel::detach(Terminal& terminal) {
     auto& nodeTerminal = dynamic_cast<NodeTerminal&>(terminal);
 
     unsigned long node = nodeTerminal.getNode();
-    assert(node < m_graph.getVertexCount());
+    assert(m_graph.vertexExists(node));
     assert(stdcxx::areSame(m_graph.getVertexObject(node).get(), nodeTerminal));
 
     getNetwork().getVariantManager().forEachVariant([this]() {
-- 
2.43.0


From 415a8c60a0181911205c809f9aa604989a505a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:16 +0000
Subject: [PATCH 10/19] fix: size the visited vertices of the merged buses by
 the capacity of the graph

---
 src/iidm/BusBreakerVoltageLevelTopology.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iidm/BusBreakerVoltageLevelTopology.cpp b/src/iidm/BusBreakerVoltageLevelTopology.cpp
index debc17e..4220310 100644
--- a/src/iidm/BusBreakerVoltageLevelTopology.cpp
+++ b/src/iidm/BusBreakerVoltageLevelTopology.cpp
@@ -110,7 +110,7 @@ void CalculatedBusTopology::updateCache() {
 
     const auto& graph = m_voltageLevel.getGraph();
 
-    std::vector<bool> encountered(graph.getVertexCount(), false);
+    std::vector<bool> encountered(graph.getVertexCapacity(), false);
     for (unsigned long v : graph.getVertices()) {
         if (!encountered[v]) {
 
-- 
2.43.0


From bb45f1eafefadda6ea11530fd8a96d9891491046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:48 +0000
Subject: [PATCH 11/19] fix: attach the extensions of a moved network to the
 new network

---
 src/iidm/Extendable.cpp | 5 +----
 src/iidm/Network.cpp    | 5 +++++
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/iidm/Extendable.cpp b/src/iidm/Extendable.cpp
index 2b14f44..8cc0b7c 100644
--- a/src/iidm/Extendable.cpp
+++ b/src/iidm/Extendable.cpp
@@ -20,10 +20,7 @@ namespace iidm {
 Extendable::Extendable(Extendable&& extendable) noexcept :
     m_extensionsByName(std::move(extendable.m_extensionsByName)),
     m_extensionsByType(std::move(extendable.m_extensionsByType)) {
-
-    for (auto& it : m_extensionsByName) {
-        it.second->setExtendable(*this);
-    }
+    // The extensions are attached to the new extendable once it is fully constructed, since they check its type
 }
 
 void Extendable::addExtension(std::unique_ptr<Extension>&& extension) {
diff --git a/src/iidm/Network.cpp b/src/iidm/Network.cpp
index b7dd6c6..04d8860 100644
--- a/src/iidm/Network.cpp
+++ b/src/iidm/Network.cpp
@@ -90,6 +90,11 @@ Network::Network(Network&& network) noexcept :
     m_variants(*this, std::move(network.m_variants)),
     m_busBreakerView(*this),
     m_busView(*this) {
+
+    for (Extension& extension : getExtensions()) {
+        extension.setExtendable(stdcxx::ref<Extendable>());
+        extension.setExtendable(*this);
+    }
 }
 
 void Network::allocateVariantArrayElement(const std::set<unsigned long>& indexes, unsigned long sourceIndex) {
-- 
2.43.0


From 1820cec9ad9398e627e092732542151c72b9943d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:24 +0000
Subject: [PATCH 12/19] fix: never hand out a pseudonym that a mapping already
 uses

---
 src/iidm/converter/SimpleAnonymizer.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/iidm/converter/SimpleAnonymizer.cpp b/src/iidm/converter/SimpleAnonymizer.cpp
index 95c6f2c..cb0976a 100644
--- a/src/iidm/converter/SimpleAnonymizer.cpp
+++ b/src/iidm/converter/SimpleAnonymizer.cpp
@@ -34,7 +34,13 @@ std::string SimpleAnonymizer::anonymizeString(const std::string& str) {
     if (it != m_mapping.left.end()) {
         return it->second;
     }
-    const std::string& anonymizedStr = getAlpha(m_mapping.size() + 1);
+    unsigned long num = m_mapping.size() + 1;
+    std::string anonymizedStr = getAlpha(num);
+    while (m_mapping.right.find(anonymizedStr) != m_mapping.right.end()) {
+        // already taken by a string of a mapping that has been read
+        num++;
+        anonymizedStr = getAlpha(num);
+    }
     m_mapping.insert(Mapping::value_type(str, anonymizedStr));
     return anonymizedStr;
 }
-- 
2.43.0


From 95ee33b3fd48d33c236a85f87c629b04c9452329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:01 +0000
Subject: [PATCH 13/19] fix: edges between two vertices of a graph can be
 listed (the member did not compile)

---
 include/powsybl/math/UndirectedGraph.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/powsybl/math/UndirectedGraph.hxx b/include/powsybl/math/UndirectedGraph.hxx
index 90746fd..d018f6c 100644
--- a/include/powsybl/math/UndirectedGraph.hxx
+++ b/include/powsybl/math/UndirectedGraph.hxx
@@ -245,13 +245,14 @@ typename UndirectedGraph<V, E>::template const_range<E> UndirectedGraph<V, E>::g
     const auto& edgeMapper = [this](const unsigned long& e) {
         return m_edges[e].get();
     };
-    const auto& edgeFilter = [v1, v2](const Edge& edge) {
+    const auto& edgeFilter = [v1, v2](const Edge* edge) {
         return ((edge->getVertex1() == v1 && edge->getVertex2() == v2) || (edge->getVertex1() == v2 && edge->getVertex2() == v1));
     };
 
     return adjacentEdges |
         boost::adaptors::transformed(edgeMapper) |
         boost::adaptors::filtered(edgeFilter) |
+        boost::adaptors::indirected |
         boost::adaptors::transformed(Edge::map);
 }
 
-- 
2.43.0


From 85ab54d78e62205274a6f54b4caf17be1dae6b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:23 +0000
Subject: [PATCH 14/19] fix: check that a terminal can be attached before its
 equipment is added to the network

---
 src/iidm/BatteryAdder.cpp                  |  7 +++++--
 src/iidm/DanglingLineAdder.cpp             |  7 +++++--
 src/iidm/GeneratorAdder.cpp                |  7 +++++--
 src/iidm/LccConverterStationAdder.cpp      |  7 +++++--
 src/iidm/LineAdder.cpp                     | 12 ++++++------
 src/iidm/LoadAdder.cpp                     |  7 +++++--
 src/iidm/NodeBreakerVoltageLevel.cpp       | 11 +++++++----
 src/iidm/ShuntCompensatorAdder.cpp         |  7 +++++--
 src/iidm/StaticVarCompensatorAdder.cpp     |  7 +++++--
 src/iidm/ThreeWindingsTransformerAdder.cpp | 17 ++++++++---------
 src/iidm/TieLineAdder.cpp                  | 12 ++++++------
 src/iidm/TwoWindingsTransformerAdder.cpp   | 12 ++++++------
 src/iidm/VscConverterStationAdder.cpp      |  7 +++++--
 13 files changed, 73 insertions(+), 47 deletions(-)

diff --git a/src/iidm/BatteryAdder.cpp b/src/iidm/BatteryAdder.cpp
index 20c7a74..d9099af 100644
--- a/src/iidm/BatteryAdder.cpp
+++ b/src/iidm/BatteryAdder.cpp
@@ -30,9 +30,12 @@ Battery& BatteryAdder::add() {
     checkActivePowerLimits(*this, m_minP, m_maxP);
 
     std::unique_ptr<Battery> ptrBattery = stdcxx::make_unique<Battery>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(), m_p0, m_q0, m_minP, m_maxP);
-    auto& battery = getNetwork().checkAndAdd<Battery>(std::move(ptrBattery));
+    Terminal& terminal = ptrBattery->addTerminal(checkAndGetTerminal());
+
+    // check that the new terminal is attachable
+    getVoltageLevel().attach(terminal, true);
 
-    Terminal& terminal = battery.addTerminal(checkAndGetTerminal());
+    auto& battery = getNetwork().checkAndAdd<Battery>(std::move(ptrBattery));
     getVoltageLevel().attach(terminal, false);
 
     return battery;
diff --git a/src/iidm/DanglingLineAdder.cpp b/src/iidm/DanglingLineAdder.cpp
index 3ab1eb9..5b7f971 100644
--- a/src/iidm/DanglingLineAdder.cpp
+++ b/src/iidm/DanglingLineAdder.cpp
@@ -34,9 +34,12 @@ DanglingLine& DanglingLineAdder::add() {
 
     std::unique_ptr<DanglingLine> ptrDanglingLine = stdcxx::make_unique<DanglingLine>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(),
                                                                                       m_p0, m_q0, m_r, m_x, m_g, m_b, m_ucteXnodeCode, std::move(ptrGeneration));
-    auto& danglingLine = getNetwork().checkAndAdd<DanglingLine>(std::move(ptrDanglingLine));
+    Terminal& terminal = ptrDanglingLine->addTerminal(checkAndGetTerminal());
+
+    // check that the new terminal is attachable
+    getVoltageLevel().attach(terminal, true);
 
-    Terminal& terminal = danglingLine.addTerminal(checkAndGetTerminal());
+    auto& danglingLine = getNetwork().checkAndAdd<DanglingLine>(std::move(ptrDanglingLine));
     getVoltageLevel().attach(terminal, false);
 
     return danglingLine;
diff --git a/src/iidm/GeneratorAdder.cpp b/src/iidm/GeneratorAdder.cpp
index 877c6b5..0900063 100644
--- a/src/iidm/GeneratorAdder.cpp
+++ b/src/iidm/GeneratorAdder.cpp
@@ -37,9 +37,12 @@ Generator& GeneratorAdder::add() {
     std::unique_ptr<Generator> ptrGenerator = stdcxx::make_unique<Generator>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(),
         m_energySource, m_minP, m_maxP, *m_voltageRegulatorOn, regulatingTerminal,
         m_activePowerSetpoint, m_reactivePowerSetpoint, m_voltageSetpoint, m_ratedS);
-    auto& generator = getNetwork().checkAndAdd(std::move(ptrGenerator));
+    Terminal& terminal = ptrGenerator->addTerminal(std::move(terminalPtr));
+
+    // check that the new terminal is attachable
+    getVoltageLevel().attach(terminal, true);
 
-    Terminal& terminal = generator.addTerminal(std::move(terminalPtr));
+    auto& generator = getNetwork().checkAndAdd(std::move(ptrGenerator));
     getVoltageLevel().attach(terminal, false);
 
     return generator;
diff --git a/src/iidm/LccConverterStationAdder.cpp b/src/iidm/LccConverterStationAdder.cpp
index 9d33d45..2402489 100644
--- a/src/iidm/LccConverterStationAdder.cpp
+++ b/src/iidm/LccConverterStationAdder.cpp
@@ -24,9 +24,12 @@ LccConverterStation& LccConverterStationAdder::add() {
     validate();
 
     std::unique_ptr<LccConverterStation> ptrLcc = stdcxx::make_unique<LccConverterStation>(checkAndGetUniqueId(), getName(), isFictitious(), getLossFactor(), m_powerFactor);
-    auto& lcc = getNetwork().checkAndAdd<LccConverterStation>(std::move(ptrLcc));
+    Terminal& terminal = ptrLcc->addTerminal(checkAndGetTerminal());
+
+    // check that the new terminal is attachable
+    getVoltageLevel().attach(terminal, true);
 
-    Terminal& terminal = lcc.addTerminal(checkAndGetTerminal());
+    auto& lcc = getNetwork().checkAndAdd<LccConverterStation>(std::move(ptrLcc));
     getVoltageLevel().attach(terminal, false);
 
     return lcc;
diff --git a/src/iidm/LineAdder.cpp b/src/iidm/LineAdder.cpp
index cddfedb..0edfff9 100644
--- a/src/iidm/LineAdder.cpp
+++ b/src/iidm/LineAdder.cpp
@@ -37,15 +37,15 @@ Line& LineAdder::add() {
     checkR(*this, m_r);
     checkX(*this, m_x);
 
+    std::unique_ptr<Line> ptrLine = stdcxx::make_unique<Line>(checkAndGetUniqueId(), getName(), isFictitious(), m_r, m_x, m_g1, m_b1, m_g2, m_b2);
+    Terminal& terminal1 = ptrLine->addTerminal(std::move(ptrTerminal1));
+    Terminal& terminal2 = ptrLine->addTerminal(std::move(ptrTerminal2));
+
     // check that the line is attachable on both side
-    voltageLevel1.attach(*ptrTerminal1, true);
-    voltageLevel2.attach(*ptrTerminal2, true);
+    voltageLevel1.attach(terminal1, true);
+    voltageLevel2.attach(terminal2, true);
 
-    std::unique_ptr<Line> ptrLine = stdcxx::make_unique<Line>(checkAndGetUniqueId(), getName(), isFictitious(), m_r, m_x, m_g1, m_b1, m_g2, m_b2);
     auto& line = m_network.checkAndAdd<Line>(std::move(ptrLine));
-
-    Terminal& terminal1 = line.addTerminal(std::move(ptrTerminal1));
-    Terminal& terminal2 = line.addTerminal(std::move(ptrTerminal2));
     voltageLevel1.attach(terminal1, false);
     voltageLevel2.attach(terminal2, false);
 
diff --git a/src/iidm/LoadAdder.cpp b/src/iidm/LoadAdder.cpp
index 24ff9ed..cd57416 100644
--- a/src/iidm/LoadAdder.cpp
+++ b/src/iidm/LoadAdder.cpp
@@ -27,9 +27,12 @@ Load& LoadAdder::add() {
     checkQ0(*this, m_q0);
 
     std::unique_ptr<Load> ptrLoad = stdcxx::make_unique<Load>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(), m_loadType, m_p0, m_q0);
-    auto& load = getNetwork().checkAndAdd<Load>(std::move(ptrLoad));
+    Terminal& terminal = ptrLoad->addTerminal(checkAndGetTerminal());
+
+    // check that the new terminal is attachable
+    getVoltageLevel().attach(terminal, true);
 
-    Terminal& terminal = load.addTerminal(checkAndGetTerminal());
+    auto& load = getNetwork().checkAndAdd<Load>(std::move(ptrLoad));
     getVoltageLevel().attach(terminal, false);
 
     return load;
diff --git a/src/iidm/NodeBreakerVoltageLevel.cpp b/src/iidm/NodeBreakerVoltageLevel.cpp
index 4746a79..67b7eb6 100644
--- a/src/iidm/NodeBreakerVoltageLevel.cpp
+++ b/src/iidm/NodeBreakerVoltageLevel.cpp
@@ -54,17 +54,20 @@ void NodeBreakerVoltageLevel::allocateVariantArrayElement(const std::set<unsigne
 
 void NodeBreakerVoltageLevel::attach(Terminal& terminal, bool test) {
     checkTerminal(terminal);
-    if (!test) {
-        auto& nodeTerminal = dynamic_cast<NodeTerminal&>(terminal);
-        unsigned long node = nodeTerminal.getNode();
-        m_graph.addVertexIfNotPresent(node);
 
+    auto& nodeTerminal = dynamic_cast<NodeTerminal&>(terminal);
+    unsigned long node = nodeTerminal.getNode();
+    if (m_graph.vertexExists(node)) {
         const stdcxx::Reference<NodeTerminal>& tmp = m_graph.getVertexObject(node);
         if (static_cast<bool>(tmp)) {
             throw ValidationException(terminal.getConnectable(),
                 stdcxx::format("An equipment (%1%) is already connected to the node %2% of voltage level %3%",
                                 tmp.get().getConnectable().get().getId(), node, getId()));
         }
+    }
+
+    if (!test) {
+        m_graph.addVertexIfNotPresent(node);
 
         // create the link terminal <-> graph vertex
         m_graph.setVertexObject(node, stdcxx::ref(nodeTerminal));
diff --git a/src/iidm/ShuntCompensatorAdder.cpp b/src/iidm/ShuntCompensatorAdder.cpp
index 99cd059..df31cd9 100644
--- a/src/iidm/ShuntCompensatorAdder.cpp
+++ b/src/iidm/ShuntCompensatorAdder.cpp
@@ -34,9 +34,12 @@ ShuntCompensator& ShuntCompensatorAdder::add() {
     Terminal& regulatingTerminal = m_regulatingTerminal ? m_regulatingTerminal.get() : *ptrTerminal;
     std::unique_ptr<ShuntCompensator> ptrShunt = stdcxx::make_unique<ShuntCompensator>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(), m_modelBuilder->build(),
                                                                                        *m_sectionCount, regulatingTerminal, m_voltageRegulatorOn, m_targetV, m_targetDeadband);
-    auto& shunt = getNetwork().checkAndAdd<ShuntCompensator>(std::move(ptrShunt));
+    Terminal& terminal = ptrShunt->addTerminal(std::move(ptrTerminal));
+
+    // check that the new terminal is attachable
+    getVoltageLevel().attach(terminal, true);
 
-    Terminal& terminal = shunt.addTerminal(std::move(ptrTerminal));
+    auto& shunt = getNetwork().checkAndAdd<ShuntCompensator>(std::move(ptrShunt));
     getVoltageLevel().attach(terminal, false);
 
     return shunt;
diff --git a/src/iidm/StaticVarCompensatorAdder.cpp b/src/iidm/StaticVarCompensatorAdder.cpp
index 751e139..5c00705 100644
--- a/src/iidm/StaticVarCompensatorAdder.cpp
+++ b/src/iidm/StaticVarCompensatorAdder.cpp
@@ -31,9 +31,12 @@ StaticVarCompensator& StaticVarCompensatorAdder::add() {
     Terminal& regulatingTerminal = m_regulatingTerminal ? m_regulatingTerminal.get() : *ptrTerminal;
     std::unique_ptr<StaticVarCompensator> ptrSvc = stdcxx::make_unique<StaticVarCompensator>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(), m_bMin, m_bMax, m_voltageSetpoint,
         m_reactivePowerSetpoint, *m_regulationMode, regulatingTerminal);
-    auto& svc = getNetwork().checkAndAdd<StaticVarCompensator>(std::move(ptrSvc));
+    Terminal& terminal = ptrSvc->addTerminal(std::move(ptrTerminal));
+
+    // check that the new terminal is attachable
+    getVoltageLevel().attach(terminal, true);
 
-    Terminal& terminal = svc.addTerminal(std::move(ptrTerminal));
+    auto& svc = getNetwork().checkAndAdd<StaticVarCompensator>(std::move(ptrSvc));
     getVoltageLevel().attach(terminal, false);
 
     return svc;
diff --git a/src/iidm/ThreeWindingsTransformerAdder.cpp b/src/iidm/ThreeWindingsTransformerAdder.cpp
index 79332c7..dfd4e39 100644
--- a/src/iidm/ThreeWindingsTransformerAdder.cpp
+++ b/src/iidm/ThreeWindingsTransformerAdder.cpp
@@ -45,11 +45,6 @@ ThreeWindingsTransformer& ThreeWindingsTransformerAdder::add() {
     VoltageLevel& voltageLevel3 = m_adder3->checkAndGetVoltageLevel();
     std::unique_ptr<Terminal> ptrTerminal3 = m_adder3->checkAndGetTerminal(voltageLevel3);
 
-    // check that the 3 windings transformer is attachable on the 3 sides
-    voltageLevel1.attach(*ptrTerminal1, true);
-    voltageLevel2.attach(*ptrTerminal2, true);
-    voltageLevel3.attach(*ptrTerminal3, true);
-
     // Define ratedU0 equal to ratedU1 if it has not been defined
     if (std::isnan(m_ratedU0)) {
         m_ratedU0 = leg1.getRatedU();
@@ -57,12 +52,16 @@ ThreeWindingsTransformer& ThreeWindingsTransformerAdder::add() {
     }
 
     std::unique_ptr<ThreeWindingsTransformer> ptrTransformer = stdcxx::make_unique<ThreeWindingsTransformer>(checkAndGetUniqueId(), getName(), isFictitious(), std::move(leg1), std::move(leg2), std::move(leg3), m_ratedU0);
-    auto& transformer = getNetwork().checkAndAdd<ThreeWindingsTransformer>(std::move(ptrTransformer));
+    Terminal& terminal1 = ptrTransformer->addTerminal(std::move(ptrTerminal1));
+    Terminal& terminal2 = ptrTransformer->addTerminal(std::move(ptrTerminal2));
+    Terminal& terminal3 = ptrTransformer->addTerminal(std::move(ptrTerminal3));
 
-    Terminal& terminal1 = transformer.addTerminal(std::move(ptrTerminal1));
-    Terminal& terminal2 = transformer.addTerminal(std::move(ptrTerminal2));
-    Terminal& terminal3 = transformer.addTerminal(std::move(ptrTerminal3));
+    // check that the 3 windings transformer is attachable on the 3 sides
+    voltageLevel1.attach(terminal1, true);
+    voltageLevel2.attach(terminal2, true);
+    voltageLevel3.attach(terminal3, true);
 
+    auto& transformer = getNetwork().checkAndAdd<ThreeWindingsTransformer>(std::move(ptrTransformer));
     voltageLevel1.attach(terminal1, false);
     voltageLevel2.attach(terminal2, false);
     voltageLevel3.attach(terminal3, false);
diff --git a/src/iidm/TieLineAdder.cpp b/src/iidm/TieLineAdder.cpp
index 1167fb1..41a8a5a 100644
--- a/src/iidm/TieLineAdder.cpp
+++ b/src/iidm/TieLineAdder.cpp
@@ -39,15 +39,15 @@ TieLine& TieLineAdder::add() {
     TieLine::HalfLine half1 = m_halfLineAdder1->build();
     TieLine::HalfLine half2 = m_halfLineAdder2->build();
 
+    std::unique_ptr<TieLine> ptrTieLine = stdcxx::make_unique<TieLine>(checkAndGetUniqueId(), getName(), isFictitious(), m_ucteXnodeCode, std::move(half1), std::move(half2));
+    Terminal& terminal1 = ptrTieLine->addTerminal(std::move(ptrTerminal1));
+    Terminal& terminal2 = ptrTieLine->addTerminal(std::move(ptrTerminal2));
+
     // check that the line is attachable on both side
-    voltageLevel1.attach(*ptrTerminal1, true);
-    voltageLevel2.attach(*ptrTerminal2, true);
+    voltageLevel1.attach(terminal1, true);
+    voltageLevel2.attach(terminal2, true);
 
-    std::unique_ptr<TieLine> ptrTieLine = stdcxx::make_unique<TieLine>(checkAndGetUniqueId(), getName(), isFictitious(), m_ucteXnodeCode, std::move(half1), std::move(half2));
     auto& tieLine = m_network.checkAndAdd<TieLine>(std::move(ptrTieLine));
-
-    Terminal& terminal1 = tieLine.addTerminal(std::move(ptrTerminal1));
-    Terminal& terminal2 = tieLine.addTerminal(std::move(ptrTerminal2));
     voltageLevel1.attach(terminal1, false);
     voltageLevel2.attach(terminal2, false);
 
diff --git a/src/iidm/TwoWindingsTransformerAdder.cpp b/src/iidm/TwoWindingsTransformerAdder.cpp
index 8a9f7c6..e77a8e1 100644
--- a/src/iidm/TwoWindingsTransformerAdder.cpp
+++ b/src/iidm/TwoWindingsTransformerAdder.cpp
@@ -40,15 +40,15 @@ TwoWindingsTransformer& TwoWindingsTransformerAdder::add() {
     checkRatedU2(*this, m_ratedU2);
     checkRatedS(*this, m_ratedS);
 
+    std::unique_ptr<TwoWindingsTransformer> ptrTransformer = stdcxx::make_unique<TwoWindingsTransformer>(checkAndGetUniqueId(), getName(), isFictitious(), m_substation, m_r, m_x, m_g, m_b, m_ratedU1, m_ratedU2, m_ratedS);
+    Terminal& terminal1 = ptrTransformer->addTerminal(std::move(ptrTerminal1));
+    Terminal& terminal2 = ptrTransformer->addTerminal(std::move(ptrTerminal2));
+
     // check that the two windings transformer is attachable on both side
-    voltageLevel1.attach(*ptrTerminal1, true);
-    voltageLevel2.attach(*ptrTerminal2, true);
+    voltageLevel1.attach(terminal1, true);
+    voltageLevel2.attach(terminal2, true);
 
-    std::unique_ptr<TwoWindingsTransformer> ptrTransformer = stdcxx::make_unique<TwoWindingsTransformer>(checkAndGetUniqueId(), getName(), isFictitious(), m_substation, m_r, m_x, m_g, m_b, m_ratedU1, m_ratedU2, m_ratedS);
     auto& transformer = getNetwork().checkAndAdd<TwoWindingsTransformer>(std::move(ptrTransformer));
-
-    Terminal& terminal1 = transformer.addTerminal(std::move(ptrTerminal1));
-    Terminal& terminal2 = transformer.addTerminal(std::move(ptrTerminal2));
     voltageLevel1.attach(terminal1, false);
     voltageLevel2.attach(terminal2, false);
 
diff --git a/src/iidm/VscConverterStationAdder.cpp b/src/iidm/VscConverterStationAdder.cpp
index c1a188c..5f6b364 100644
--- a/src/iidm/VscConverterStationAdder.cpp
+++ b/src/iidm/VscConverterStationAdder.cpp
@@ -24,9 +24,12 @@ VscConverterStation& VscConverterStationAdder::add() {
     validate();
 
     std::unique_ptr<VscConverterStation> ptrVsc = stdcxx::make_unique<VscConverterStation>(getNetwork(), checkAndGetUniqueId(), getName(), isFictitious(), getLossFactor(), *m_voltageRegulatorOn, m_reactivePowerSetpoint, m_voltageSetpoint);
-    auto& vsc = getNetwork().checkAndAdd<VscConverterStation>(std::move(ptrVsc));
+    Terminal& terminal = ptrVsc->addTerminal(checkAndGetTerminal());
+
+    // check that the new terminal is attachable
+    getVoltageLevel().attach(terminal, true);
 
-    Terminal& terminal = vsc.addTerminal(checkAndGetTerminal());
+    auto& vsc = getNetwork().checkAndAdd<VscConverterStation>(std::move(ptrVsc));
     getVoltageLevel().attach(terminal, false);
 
     return vsc;
-- 
2.43.0


From b7404ac6a74fd3bc324924aaebc5c7d3cb0c4a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:58 +0000
Subject: [PATCH 15/19] fix: recompute the buses of every variant when a
 switch, bus or internal connection is added or removed

---
 src/iidm/BusBreakerVoltageLevel.cpp  | 18 ++++++++++++++++++
 src/iidm/NodeBreakerVoltageLevel.cpp | 17 +++++++++++++++--
 2 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/iidm/BusBreakerVoltageLevel.cpp b/src/iidm/BusBreakerVoltageLevel.cpp
index 4f59035..03a7899 100644
--- a/src/iidm/BusBreakerVoltageLevel.cpp
+++ b/src/iidm/BusBreakerVoltageLevel.cpp
@@ -37,6 +37,9 @@ Bus& BusBreakerVoltageLevel::addBus(std::unique_ptr<ConfiguredBus>&& ptrBus) {
     unsigned long node = m_graph.addVertex();
     m_graph.setVertexObject(node, stdcxx::ref(bus));
     m_buses.insert(std::make_pair(bus.getId(), node));
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
 
     return bus;
 }
@@ -48,6 +51,9 @@ Switch& BusBreakerVoltageLevel::addSwitch(std::unique_ptr<Switch>&& ptrSwitch, c
     Switch& aSwitch = getNetwork().checkAndAdd(std::move(ptrSwitch));
     unsigned long e = m_graph.addEdge(v1, v2, stdcxx::ref(aSwitch));
     m_switches.insert(std::make_pair(aSwitch.getId(), e));
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
 
     return aSwitch;
 }
@@ -309,6 +315,9 @@ void BusBreakerVoltageLevel::removeAllBuses() {
 
     m_graph.removeAllVertices();
     m_buses.clear();
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
 }
 
 void BusBreakerVoltageLevel::removeAllSwitches() {
@@ -318,6 +327,9 @@ void BusBreakerVoltageLevel::removeAllSwitches() {
 
     m_graph.removeAllEdges();
     m_switches.clear();
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
 }
 
 void BusBreakerVoltageLevel::removeBus(const std::string& busId) {
@@ -342,6 +354,9 @@ void BusBreakerVoltageLevel::removeBus(const std::string& busId) {
     const auto& it = m_buses.find(busId);
     m_graph.removeVertex(it->second);
     m_buses.erase(it);
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
     getNetwork().remove(bus.get());
 }
 
@@ -353,6 +368,9 @@ void BusBreakerVoltageLevel::removeSwitch(const std::string& switchId) {
 
     const auto& aSwitch = m_graph.removeEdge(it->second);
     m_switches.erase(it);
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
     getNetwork().remove(aSwitch.get());
 }
 
diff --git a/src/iidm/NodeBreakerVoltageLevel.cpp b/src/iidm/NodeBreakerVoltageLevel.cpp
index 67b7eb6..bf6991a 100644
--- a/src/iidm/NodeBreakerVoltageLevel.cpp
+++ b/src/iidm/NodeBreakerVoltageLevel.cpp
@@ -34,7 +34,9 @@ void NodeBreakerVoltageLevel::addInternalConnection(unsigned long node1, unsigne
     m_graph.addVertexIfNotPresent(node1);
     m_graph.addVertexIfNotPresent(node2);
     m_graph.addEdge(node1, node2, stdcxx::ref<Switch>());
-    invalidateCache();
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
 }
 
 Switch& NodeBreakerVoltageLevel::addSwitch(std::unique_ptr<Switch>&& ptrSwitch, unsigned long node1, unsigned long node2) {
@@ -43,6 +45,9 @@ Switch& NodeBreakerVoltageLevel::addSwitch(std::unique_ptr<Switch>&& ptrSwitch,
     m_graph.addVertexIfNotPresent(node2);
     unsigned long e = m_graph.addEdge(node1, node2, stdcxx::ref(aSwitch));
     m_switches.insert(std::make_pair(aSwitch.getId(), e));
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
 
     return aSwitch;
 }
@@ -369,7 +374,9 @@ void NodeBreakerVoltageLevel::removeInternalConnections(unsigned long node1, uns
         m_graph.removeEdge(ic);
     }
     clean();
-    invalidateCache();
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
 }
 
 void NodeBreakerVoltageLevel::removeSwitch(const std::string& switchId) {
@@ -380,6 +387,9 @@ void NodeBreakerVoltageLevel::removeSwitch(const std::string& switchId) {
 
     const auto& aSwitch = m_graph.removeEdge(it->second);
     clean();
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
 
     m_switches.erase(it);
     getNetwork().remove(aSwitch.get());
@@ -391,6 +401,9 @@ void NodeBreakerVoltageLevel::removeTopology() {
     }
     m_graph.removeAllEdges();
     m_switches.clear();
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        invalidateCache();
+    });
 }
 
 void NodeBreakerVoltageLevel::traverse(NodeTerminal& terminal, VoltageLevel::TopologyTraverser& traverser) const {
-- 
2.43.0


From 0471b4c5281e49437e273846bae983d8254dc149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:58 +0000
Subject: [PATCH 16/19] fix: a voltage level with internal connections can be
 removed

---
 src/iidm/NodeBreakerVoltageLevel.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/iidm/NodeBreakerVoltageLevel.cpp b/src/iidm/NodeBreakerVoltageLevel.cpp
index bf6991a..940d3fc 100644
--- a/src/iidm/NodeBreakerVoltageLevel.cpp
+++ b/src/iidm/NodeBreakerVoltageLevel.cpp
@@ -396,8 +396,10 @@ void NodeBreakerVoltageLevel::removeSwitch(const std::string& switchId) {
 }
 
 void NodeBreakerVoltageLevel::removeTopology() {
-    for (Switch& s : m_graph.getEdgeObjects()) {
-        getNetwork().getIndex().remove(s);
+    for (const auto& s : m_graph.getEdgeObjects()) {
+        if (s) { // internal connections have no switch
+            getNetwork().getIndex().remove(s.get());
+        }
     }
     m_graph.removeAllEdges();
     m_switches.clear();
-- 
2.43.0


From b59d9df16f1e5bd55036ff36835447b21def8a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:36 +0000
Subject: [PATCH 17/19] fix: the connectable bus of a terminal is changed in
 the working variant only

---
 src/iidm/BusBreakerVoltageLevel.cpp | 27 +++++++++++++++------------
 src/iidm/BusTerminalViews.cpp       |  9 ++++++---
 2 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/iidm/BusBreakerVoltageLevel.cpp b/src/iidm/BusBreakerVoltageLevel.cpp
index 03a7899..d8da506 100644
--- a/src/iidm/BusBreakerVoltageLevel.cpp
+++ b/src/iidm/BusBreakerVoltageLevel.cpp
@@ -115,10 +115,9 @@ void BusBreakerVoltageLevel::detach(Terminal& terminal) {
     assert(stdcxx::isInstanceOf<BusTerminal>(terminal));
 
     auto& busTerminal = dynamic_cast<BusTerminal&>(terminal);
-    auto& bus = getConfiguredBus(busTerminal.getConnectableBusId(), true).get();
-
-    getNetwork().getVariantManager().forEachVariant([&bus, &busTerminal, this]() {
-        bus.removeTerminal(busTerminal);
+    getNetwork().getVariantManager().forEachVariant([&busTerminal, this]() {
+        // the connectable bus may be different in each variant
+        getConfiguredBus(busTerminal.getConnectableBusId(), true).get().removeTerminal(busTerminal);
         busTerminal.setConnectableBusId("");
 
         invalidateCache();
@@ -303,12 +302,14 @@ void BusBreakerVoltageLevel::removeAllBuses() {
     if (m_graph.getEdgeCount() > 0) {
         throw ValidationException(*this, stdcxx::format("Cannot remove all buses because there is still some switches"));
     }
-    for (const auto& it : m_graph.getVertexObjects()) {
-        const auto& bus = it.get();
-        if (bus.getTerminalCount() > 0) {
-            throw ValidationException(*this, stdcxx::format("Cannot remove bus '%1%' due to connected equipments", bus.getId()));
+    getNetwork().getVariantManager().forEachVariant([this]() {
+        for (const auto& it : m_graph.getVertexObjects()) {
+            const auto& bus = it.get();
+            if (bus.getTerminalCount() > 0) {
+                throw ValidationException(*this, stdcxx::format("Cannot remove bus '%1%' due to connected equipments", bus.getId()));
+            }
         }
-    }
+    });
     for (const auto& it : m_graph.getVertexObjects()) {
         getNetwork().remove(it.get());
     }
@@ -334,9 +335,11 @@ void BusBreakerVoltageLevel::removeAllSwitches() {
 
 void BusBreakerVoltageLevel::removeBus(const std::string& busId) {
     const auto& bus = getConfiguredBus(busId, true);
-    if (bus.get().getTerminalCount() > 0) {
-        throw ValidationException(*this, stdcxx::format("Cannot remove bus '%1%' due to connectable equipments", busId));
-    }
+    getNetwork().getVariantManager().forEachVariant([this, &bus, &busId]() {
+        if (bus.get().getTerminalCount() > 0) {
+            throw ValidationException(*this, stdcxx::format("Cannot remove bus '%1%' due to connectable equipments", busId));
+        }
+    });
 
     for (const auto& it : m_switches) {
         const auto& switchId = it.first;
diff --git a/src/iidm/BusTerminalViews.cpp b/src/iidm/BusTerminalViews.cpp
index d769720..95c7e8b 100644
--- a/src/iidm/BusTerminalViews.cpp
+++ b/src/iidm/BusTerminalViews.cpp
@@ -48,11 +48,14 @@ void BusBreakerViewImpl::setConnectableBus(const std::string& busId) {
     auto& voltageLevel = dynamic_cast<BusBreakerVoltageLevel&>(m_terminal.getVoltageLevel());
 
     // Assert that the new bus exists
-    voltageLevel.getConfiguredBus(busId, true);
+    const auto& newBus = voltageLevel.getConfiguredBus(busId, true);
 
-    voltageLevel.detach(m_terminal);
+    // the connectable bus depends on the working variant: the other variants are not modified
+    const auto& oldBus = voltageLevel.getConfiguredBus(m_terminal.getConnectableBusId(), true);
+    oldBus.get().removeTerminal(m_terminal);
     m_terminal.setConnectableBusId(busId);
-    voltageLevel.attach(m_terminal, false);
+    newBus.get().addTerminal(m_terminal);
+    voltageLevel.invalidateCache();
 }
 
 BusViewImpl::BusViewImpl(powsybl::iidm::BusTerminal& terminal):
-- 
2.43.0


From 5f363aec7f75ba05e7737ab1d887f41278fc393d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:36 +0000
Subject: [PATCH 18/19] fix: components of the same size keep the order of
 discovery

---
 src/math/GraphUtil.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/GraphUtil.cpp b/src/math/GraphUtil.cpp
index c1f60ae..ed309ce 100644
--- a/src/math/GraphUtil.cpp
+++ b/src/math/GraphUtil.cpp
@@ -58,7 +58,7 @@ ConnectedComponentsComputationResult computeConnectedComponents(const AdjacencyL
     }
 
     // Sort the components by their size (the main component is the bigger one)
-    std::sort(orderedComponents.begin(), orderedComponents.end(), [](const std::reference_wrapper<ConnectedComponent>& c1, const std::reference_wrapper<ConnectedComponent>& c2) {
+    std::stable_sort(orderedComponents.begin(), orderedComponents.end(), [](const std::reference_wrapper<ConnectedComponent>& c1, const std::reference_wrapper<ConnectedComponent>& c2) {
         return c2.get().size < c1.get().size;
     });
 
-- 
2.43.0


From 344c259cdbe3879177a08d6024e2db0419956b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:08 +0000
Subject: [PATCH 19/19] fix: the buses found by the bus/breaker view of a
 network are recomputed after a change

---
 src/iidm/NetworkViews.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iidm/NetworkViews.cpp b/src/iidm/NetworkViews.cpp
index bc848bf..1634833 100644
--- a/src/iidm/NetworkViews.cpp
+++ b/src/iidm/NetworkViews.cpp
@@ -86,7 +86,7 @@ stdcxx::range<Switch> BusBreakerView::getSwitches() {
 }
 
 void BusBreakerView::invalidateCache() {
-    m_network.getBusViewCache().invalidate();
+    m_network.getBusBreakerViewCache().invalidate();
 }
 
 BusView::BusView(Network& network) :
-- 
2.43.0

