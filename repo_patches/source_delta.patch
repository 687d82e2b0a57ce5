From 83a9a33d85e81efa49d8e24948f781cc8126d0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:26 +0000
Subject: [PATCH 01/36] fix: hold the actor while automatic ports are allocated
 and deleted

autoAllocateInput/Output and autoDeleteInput/Output are called by the topology's
thread while the block may be active; they modified the port maps without exclusive
access to the actor, racing with the worker thread that iterates them.
---
 lib/Framework/WorkerActorPortAllocation.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/Framework/WorkerActorPortAllocation.cpp b/lib/Framework/WorkerActorPortAllocation.cpp
index f946af8..7df516d 100644
--- a/lib/Framework/WorkerActorPortAllocation.cpp
+++ b/lib/Framework/WorkerActorPortAllocation.cpp
@@ -101,11 +101,13 @@ void Pothos::WorkerActor::allocateSlot(const std::string &name)
 
 void Pothos::WorkerActor::autoAllocateInput(const std::string &name)
 {
+    ActorInterfaceLock lock(this);
     this->autoAllocatePort(this->inputs, block->_namedInputs, block->_indexedInputs, block->_inputPortNames, name);
 }
 
 void Pothos::WorkerActor::autoAllocateOutput(const std::string &name)
 {
+    ActorInterfaceLock lock(this);
     this->autoAllocatePort(this->outputs, block->_namedOutputs, block->_indexedOutputs, block->_outputPortNames, name);
 }
 
@@ -163,10 +165,12 @@ void Pothos::WorkerActor::autoDeletePort(const std::string &name, PortsType &por
 
 void Pothos::WorkerActor::autoDeleteInput(const std::string &name)
 {
+    ActorInterfaceLock lock(this);
     this->autoDeletePort(name, this->inputs, block->_namedInputs, block->_indexedInputs, block->_inputPortNames);
 }
 
 void Pothos::WorkerActor::autoDeleteOutput(const std::string &name)
 {
+    ActorInterfaceLock lock(this);
     this->autoDeletePort(name, this->outputs, block->_namedOutputs, block->_indexedOutputs, block->_outputPortNames);
 }
-- 
2.43.0


From 39fa81e1d3bb0e81190a766bb844e52f4b6d0d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:26 +0000
Subject: [PATCH 02/36] fix: contain exceptions thrown by the prepare()
 overload

An exception from a block's prepare() escaped the worker thread, which terminated
the process, and left the actor locked. Log it and skip the work, like work() does.
---
 lib/Framework/WorkerActor.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/Framework/WorkerActor.cpp b/lib/Framework/WorkerActor.cpp
index f166d78..f23f0de 100644
--- a/lib/Framework/WorkerActor.cpp
+++ b/lib/Framework/WorkerActor.cpp
@@ -218,7 +218,15 @@ void Pothos::WorkerActor::setActiveStateOff(void)
 void Pothos::WorkerActor::workTask(void)
 {
     if (not activeState) return;
-    if (not block->prepare()) return;
+    POTHOS_EXCEPTION_TRY
+    {
+        if (not block->prepare()) return;
+    }
+    POTHOS_EXCEPTION_CATCH(const Exception &ex)
+    {
+        poco_error_f2(Poco::Logger::get("Pothos.Block.prepare"), "%s: %s", block->getName(), ex.displayText());
+        return;
+    }
     this->numTaskCalls++;
     TimeAccumulator taskTime(this->totalTimeTask);
 
-- 
2.43.0


From 5aae652e9c52e77eca19f181b465d66b6120e3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:01 +0000
Subject: [PATCH 03/36] fix: plugin registry lookups do not modify the tree
 under the shared lock

---
 lib/Plugin/ModulePaths.cpp |  4 ++-
 lib/Plugin/Registry.cpp    | 73 ++++++++++++++------------------------
 2 files changed, 29 insertions(+), 48 deletions(-)

diff --git a/lib/Plugin/ModulePaths.cpp b/lib/Plugin/ModulePaths.cpp
index 539faaa..9ca6942 100644
--- a/lib/Plugin/ModulePaths.cpp
+++ b/lib/Plugin/ModulePaths.cpp
@@ -23,7 +23,9 @@ static ModulePathsMap &getModulePathsMap(void)
 std::vector<std::string> getPluginPaths(const Pothos::PluginModule &module)
 {
     Pothos::Util::SpinLockRW::SharedLock lock(getModulePathsMutex());
-    return getModulePathsMap()[module.getFilePath()];
+    auto it = getModulePathsMap().find(module.getFilePath());
+    if (it == getModulePathsMap().end()) return std::vector<std::string>();
+    return it->second;
 }
 
 void updatePluginAssociation(const std::string &action, const Pothos::Plugin &plugin)
diff --git a/lib/Plugin/Registry.cpp b/lib/Plugin/Registry.cpp
index 08b25b7..3244c29 100644
--- a/lib/Plugin/Registry.cpp
+++ b/lib/Plugin/Registry.cpp
@@ -47,6 +47,19 @@ static RegistryEntry &getRegistryRoot(void)
     return regRoot;
 }
 
+//find the entry for the path without modifying the tree, null when not present
+static RegistryEntry *findRegistryEntry(const Pothos::PluginPath &path)
+{
+    RegistryEntry *root = &getRegistryRoot();
+    for (const auto &name : path.listNodes())
+    {
+        auto it = root->nodes.find(name);
+        if (it == root->nodes.end()) return nullptr;
+        root = &it->second;
+    }
+    return root;
+}
+
 /***********************************************************************
  * plugin event handler
  **********************************************************************/
@@ -87,13 +100,13 @@ static void handlePluginEvent(const Pothos::Plugin &plugin, const std::string &e
     {
         Pothos::Util::SpinLockRW::SharedLock lock(getRegistryMutex());
         const std::vector<std::string> pathNodes = path.listNodes();
-        RegistryEntry *root = &getRegistryRoot();
+        const RegistryEntry *root = &getRegistryRoot();
 
         for (size_t i = 0; i+1 < pathNodes.size(); i++)
         {
             parentPlugins.insert(parentPlugins.begin(), root->plugin);
             //next node in the tree at this node name
-            root = &root->nodes[pathNodes[i]];
+            root = &root->nodes.at(pathNodes[i]);
         }
         parentPlugins.insert(parentPlugins.begin(), root->plugin);
     }
@@ -188,17 +201,10 @@ void Pothos::PluginRegistry::add(const Plugin &plugin_)
 Pothos::Plugin Pothos::PluginRegistry::get(const PluginPath &path)
 {
     Pothos::Util::SpinLockRW::SharedLock lock(getRegistryMutex());
-    const std::vector<std::string> pathNodes = path.listNodes();
-    RegistryEntry *root = &getRegistryRoot();
-
-    for (size_t i = 0; i < pathNodes.size(); i++)
-    {
-        //next node in the tree at this node name
-        root = &root->nodes[pathNodes[i]];
-    }
+    const RegistryEntry *root = findRegistryEntry(path);
 
     //throw if the root does not have a plugin
-    if (not root->hasPlugin)
+    if (root == nullptr or not root->hasPlugin)
     {
         throw Pothos::PluginRegistryError("Pothos::PluginRegistry::get("+path.toString()+")", "plugin path not found");
     }
@@ -213,17 +219,10 @@ Pothos::Plugin Pothos::PluginRegistry::remove(const PluginPath &path)
     Plugin plugin;
     {
         std::lock_guard<Pothos::Util::SpinLockRW> lock(getRegistryMutex());
-        const std::vector<std::string> pathNodes = path.listNodes();
-        RegistryEntry *root = &getRegistryRoot();
-
-        for (size_t i = 0; i < pathNodes.size(); i++)
-        {
-            //next node in the tree at this node name
-            root = &root->nodes[pathNodes[i]];
-        }
+        RegistryEntry *root = findRegistryEntry(path);
 
         //throw if the root does not have a plugin
-        if (not root->hasPlugin)
+        if (root == nullptr or not root->hasPlugin)
         {
             throw Pothos::PluginRegistryError("Pothos::PluginRegistry::remove("+path.toString()+")", "plugin path not found");
         }
@@ -242,49 +241,29 @@ Pothos::Plugin Pothos::PluginRegistry::remove(const PluginPath &path)
 bool Pothos::PluginRegistry::empty(const PluginPath &path)
 {
     Pothos::Util::SpinLockRW::SharedLock lock(getRegistryMutex());
-    const std::vector<std::string> pathNodes = path.listNodes();
-    RegistryEntry *root = &getRegistryRoot();
-
-    for (size_t i = 0; i < pathNodes.size(); i++)
-    {
-        //next node in the tree at this node name
-        root = &root->nodes[pathNodes[i]];
-    }
+    const RegistryEntry *root = findRegistryEntry(path);
 
-    return not root->hasPlugin;
+    return root == nullptr or not root->hasPlugin;
 }
 
 bool Pothos::PluginRegistry::exists(const PluginPath &path)
 {
     Pothos::Util::SpinLockRW::SharedLock lock(getRegistryMutex());
-    const std::vector<std::string> pathNodes = path.listNodes();
-    RegistryEntry *root = &getRegistryRoot();
-
-    for (size_t i = 0; i < pathNodes.size(); i++)
-    {
-        //next node in the tree at this node name
-        root = &root->nodes[pathNodes[i]];
-    }
+    const RegistryEntry *root = findRegistryEntry(path);
 
-    return root->getNumPlugins() != 0;
+    return root != nullptr and root->getNumPlugins() != 0;
 }
 
 std::vector<std::string> Pothos::PluginRegistry::list(const PluginPath &path)
 {
     Pothos::Util::SpinLockRW::SharedLock lock(getRegistryMutex());
-    const std::vector<std::string> pathNodes = path.listNodes();
-    RegistryEntry *root = &getRegistryRoot();
-
-    for (size_t i = 0; i < pathNodes.size(); i++)
-    {
-        //next node in the tree at this node name
-        root = &root->nodes[pathNodes[i]];
-    }
+    const RegistryEntry *root = findRegistryEntry(path);
 
     std::vector<std::string> nodes;
+    if (root == nullptr) return nodes;
     for (const auto &name : root->nodeNamesOrdered)
     {
-        if (root->nodes[name].getNumPlugins() != 0) nodes.push_back(name);
+        if (root->nodes.at(name).getNumPlugins() != 0) nodes.push_back(name);
     }
     return nodes;
 }
-- 
2.43.0


From 1343509d62d922faecca35b2b3b4a1a5e946ae56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:58 +0000
Subject: [PATCH 04/36] fix: removing a plugin erases its entry from the lookup
 tables

---
 lib/Managed/Registry.cpp | 6 +++---
 lib/Object/Compare.cpp   | 2 +-
 lib/Object/Convert.cpp   | 2 +-
 lib/Object/Hash.cpp      | 2 +-
 lib/Object/ToString.cpp  | 2 +-
 lib/Proxy/Convert.cpp    | 4 ++--
 6 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/lib/Managed/Registry.cpp b/lib/Managed/Registry.cpp
index 1c3d1bd..0579570 100644
--- a/lib/Managed/Registry.cpp
+++ b/lib/Managed/Registry.cpp
@@ -49,9 +49,9 @@ static void handlePluginEvent(const Pothos::Plugin &plugin, const std::string &e
         }
         if (event == "remove")
         {
-            getClassMap()[reg.type().hash_code()] = Pothos::Plugin();
-            getClassMap()[reg.pointerType().hash_code()] = Pothos::Plugin();
-            getClassMap()[reg.sharedType().hash_code()] = Pothos::Plugin();
+            getClassMap().erase(reg.type().hash_code());
+            getClassMap().erase(reg.pointerType().hash_code());
+            getClassMap().erase(reg.sharedType().hash_code());
         }
     }
     POTHOS_EXCEPTION_CATCH(const Pothos::Exception &ex)
diff --git a/lib/Object/Compare.cpp b/lib/Object/Compare.cpp
index bbf0fe8..96326f2 100644
--- a/lib/Object/Compare.cpp
+++ b/lib/Object/Compare.cpp
@@ -55,7 +55,7 @@ static void handleComparePluginEvent(const Pothos::Plugin &plugin, const std::st
         }
         if (event == "remove")
         {
-            getCompareMap()[typesHashCombine(t0, t1)] = Pothos::Plugin();
+            getCompareMap().erase(typesHashCombine(t0, t1));
         }
     }
     POTHOS_EXCEPTION_CATCH(const Pothos::Exception &ex)
diff --git a/lib/Object/Convert.cpp b/lib/Object/Convert.cpp
index 84e9bf5..c2b19e7 100644
--- a/lib/Object/Convert.cpp
+++ b/lib/Object/Convert.cpp
@@ -64,7 +64,7 @@ static void handleConvertPluginEvent(const Pothos::Plugin &plugin, const std::st
         }
         if (event == "remove")
         {
-            getConvertMap()[typesHashCombine(inputType, outputType)] = Pothos::Plugin();
+            getConvertMap().erase(typesHashCombine(inputType, outputType));
             getConvertIoMap()[inputType.hash_code()].erase(outputType.hash_code());
         }
     }
diff --git a/lib/Object/Hash.cpp b/lib/Object/Hash.cpp
index 1e0d16d..0acc355 100644
--- a/lib/Object/Hash.cpp
+++ b/lib/Object/Hash.cpp
@@ -49,7 +49,7 @@ static void handleHashFcnPluginEvent(const Pothos::Plugin &plugin, const std::st
         }
         if (event == "remove")
         {
-            getHashFcnMap()[call.type(0).hash_code()] = Pothos::Plugin();
+            getHashFcnMap().erase(call.type(0).hash_code());
         }
     }
     POTHOS_EXCEPTION_CATCH(const Pothos::Exception &ex)
diff --git a/lib/Object/ToString.cpp b/lib/Object/ToString.cpp
index 5c2fa35..a91f929 100644
--- a/lib/Object/ToString.cpp
+++ b/lib/Object/ToString.cpp
@@ -59,7 +59,7 @@ static void handleToStringPluginEvent(const Pothos::Plugin &plugin, const std::s
         }
         if (event == "remove")
         {
-            getToStringMap()[t.hash_code()] = Pothos::Plugin();
+            getToStringMap().erase(t.hash_code());
         }
     }
     POTHOS_EXCEPTION_CATCH(const Pothos::Exception &ex)
diff --git a/lib/Proxy/Convert.cpp b/lib/Proxy/Convert.cpp
index 873805b..5612e90 100644
--- a/lib/Proxy/Convert.cpp
+++ b/lib/Proxy/Convert.cpp
@@ -105,7 +105,7 @@ static void handlePluginEvent(const Pothos::Plugin &plugin, const std::string &e
             }
             if (event == "remove")
             {
-                getConvertToLocalMap()[hashIt(name, pair.first)] = Pothos::Plugin();
+                getConvertToLocalMap().erase(hashIt(name, pair.first));
             }
         }
         else if (isConvertToProxy(plugin))
@@ -118,7 +118,7 @@ static void handlePluginEvent(const Pothos::Plugin &plugin, const std::string &e
             }
             if (event == "remove")
             {
-                getConvertToProxyMap()[hashIt(name, callable.type(1))] = Pothos::Plugin();
+                getConvertToProxyMap().erase(hashIt(name, callable.type(1)));
             }
         }
         else
-- 
2.43.0


From 0886f66d940254181d6170a466add59bd1dddf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:06 +0000
Subject: [PATCH 05/36] fix: remote transact clears the blocking state under
 the lock and wakes waiters on every failure

---
 lib/Remote/RemoteProxy.cpp | 7 +++++--
 lib/Remote/RemoteProxy.hpp | 3 ++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/Remote/RemoteProxy.cpp b/lib/Remote/RemoteProxy.cpp
index 10bd940..d4c9ad3 100644
--- a/lib/Remote/RemoteProxy.cpp
+++ b/lib/Remote/RemoteProxy.cpp
@@ -64,22 +64,25 @@ Pothos::ObjectKwargs RemoteProxyEnvironment::transact(const Pothos::ObjectKwargs
         isBlocking = true;
         lock.unlock();
         Pothos::ObjectKwargs replyArgs;
+        size_t replyTid(0);
         POTHOS_EXCEPTION_TRY
         {
             replyArgs = recvDatagram(is);
+            replyTid = replyArgs.at("tid");
         }
         POTHOS_EXCEPTION_CATCH(const Pothos::Exception &ex)
         {
+            connectionActive = false;
+            lock.lock();
             isBlocking = false;
+            lock.unlock();
             isCond.notify_all();
-            connectionActive = false;
             throw Pothos::IOException("RemoteProxyEnvironment::recvDatagram()", ex.message());
         }
         lock.lock();
         isBlocking = false;
 
         //this is our thread ID, reply args
-        const size_t replyTid(replyArgs.at("tid"));
         if (replyTid == tid)
         {
             lock.unlock();
diff --git a/lib/Remote/RemoteProxy.hpp b/lib/Remote/RemoteProxy.hpp
index b9842c1..04f70a4 100644
--- a/lib/Remote/RemoteProxy.hpp
+++ b/lib/Remote/RemoteProxy.hpp
@@ -5,6 +5,7 @@
 #include <Pothos/Config.hpp>
 #include <Pothos/Proxy.hpp>
 #include <Pothos/Object/Containers.hpp>
+#include <atomic>
 #include <mutex>
 #include <condition_variable>
 
@@ -72,7 +73,7 @@ public:
     std::istream &is;
     std::ostream &os;
     const std::string name;
-    bool connectionActive;
+    std::atomic<bool> connectionActive;
 
     std::mutex osMutex;
     std::mutex isMutex;
-- 
2.43.0


From bf10dc7214c7e534a9d7eb61514359895228e96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:06 +0000
Subject: [PATCH 06/36] fix: remote hashCode, toString and getClassName report
 the error of the server

---
 lib/Remote/RemoteProxyHandle.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/lib/Remote/RemoteProxyHandle.cpp b/lib/Remote/RemoteProxyHandle.cpp
index f53c0ad..94ed19b 100644
--- a/lib/Remote/RemoteProxyHandle.cpp
+++ b/lib/Remote/RemoteProxyHandle.cpp
@@ -105,6 +105,11 @@ size_t RemoteProxyHandle::hashCode(void) const
 
     auto reply = env->transact(req);
 
+    //check for an error
+    auto errorMsgIt = reply.find("errorMsg");
+    if (errorMsgIt != reply.end()) throw Pothos::ProxyHandleCallError(
+        "RemoteProxyHandle::hashCode()", errorMsgIt->second.extract<std::string>());
+
     return reply["result"];
 }
 
@@ -117,6 +122,11 @@ std::string RemoteProxyHandle::toString(void) const
 
     auto reply = env->transact(req);
 
+    //check for an error
+    auto errorMsgIt = reply.find("errorMsg");
+    if (errorMsgIt != reply.end()) throw Pothos::ProxyHandleCallError(
+        "RemoteProxyHandle::toString()", errorMsgIt->second.extract<std::string>());
+
     return reply["result"];
 }
 
@@ -129,5 +139,10 @@ std::string RemoteProxyHandle::getClassName(void) const
 
     auto reply = env->transact(req);
 
+    //check for an error
+    auto errorMsgIt = reply.find("errorMsg");
+    if (errorMsgIt != reply.end()) throw Pothos::ProxyHandleCallError(
+        "RemoteProxyHandle::getClassName()", errorMsgIt->second.extract<std::string>());
+
     return reply["result"];
 }
-- 
2.43.0


From e973c0428a296c35f93f6afac7315223bfbdf086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:06 +0000
Subject: [PATCH 07/36] fix: remote server replies with an error for unknown
 objects and results that cannot be serialized

---
 lib/Remote/ServerHandler.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/lib/Remote/ServerHandler.cpp b/lib/Remote/ServerHandler.cpp
index 586fb6c..1b3d38a 100644
--- a/lib/Remote/ServerHandler.cpp
+++ b/lib/Remote/ServerHandler.cpp
@@ -41,7 +41,7 @@ static Pothos::Object getObjectAtId(const Pothos::Object &id)
 {
     const size_t key(id);
     std::lock_guard<std::mutex> lock(getObjectsMutex());
-    return getObjectsMap()[key];
+    return getObjectsMap().at(key);
 }
 
 static void removeObjectAtId(const Pothos::Object &id)
@@ -170,8 +170,18 @@ bool Pothos::RemoteHandler::runHandlerOnce(std::istream &is, std::ostream &os)
         replyArgs["errorMsg"] = Pothos::Object(ex.displayText());
     }
 
-    //serialize the reply
-    sendDatagram(os, replyArgs);
+    //serialize the reply, the result itself may not be serializable
+    POTHOS_EXCEPTION_TRY
+    {
+        sendDatagram(os, replyArgs);
+    }
+    POTHOS_EXCEPTION_CATCH(const Pothos::Exception &ex)
+    {
+        Pothos::ObjectKwargs errorArgs;
+        errorArgs["tid"] = reqArgs.at("tid");
+        errorArgs["errorMsg"] = Pothos::Object(ex.displayText());
+        sendDatagram(os, errorArgs);
+    }
 
     return done;
 }
-- 
2.43.0


From 31273ea2e36558bcfc3c361d927a718d07039220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:47 +0000
Subject: [PATCH 08/36] fix: assignment of Object and ManagedBuffer takes the
 new reference before releasing the old one

---
 include/Pothos/Framework/ManagedBuffer.hpp | 12 ++++++++----
 lib/Object/Object.cpp                      |  8 ++++++--
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/Pothos/Framework/ManagedBuffer.hpp b/include/Pothos/Framework/ManagedBuffer.hpp
index bf308cd..ed8b90c 100644
--- a/include/Pothos/Framework/ManagedBuffer.hpp
+++ b/include/Pothos/Framework/ManagedBuffer.hpp
@@ -221,17 +221,21 @@ inline Pothos::ManagedBuffer::ManagedBuffer(ManagedBuffer &&obj) noexcept:
 
 inline Pothos::ManagedBuffer &Pothos::ManagedBuffer::operator=(const ManagedBuffer &obj)
 {
-    if (_impl != nullptr) _impl->decr();
-    this->_impl = obj._impl;
+    //take the new reference before giving up the old one,
+    //they may be the same or the old one may hold the new one
+    auto old = _impl;
+    _impl = obj._impl;
     if (_impl != nullptr) _impl->incr();
+    if (old != nullptr) old->decr();
     return *this;
 }
 
 inline Pothos::ManagedBuffer &Pothos::ManagedBuffer::operator=(ManagedBuffer &&obj)
 {
-    if (_impl != nullptr) _impl->decr();
-    this->_impl = obj._impl;
+    auto old = _impl;
+    _impl = obj._impl;
     obj._impl = nullptr;
+    if (old != nullptr) old->decr();
     return *this;
 }
 
diff --git a/lib/Object/Object.cpp b/lib/Object/Object.cpp
index 20339c3..48e046f 100644
--- a/lib/Object/Object.cpp
+++ b/lib/Object/Object.cpp
@@ -87,17 +87,21 @@ Pothos::Object::operator bool(void) const
 
 Pothos::Object &Pothos::Object::operator=(const Object &rhs)
 {
-    decr(_impl);
+    //take the new reference before giving up the old one,
+    //they may be the same or the old one may hold the new one
+    auto old = _impl;
     _impl = rhs._impl;
     incr(_impl);
+    decr(old);
     return *this;
 }
 
 Pothos::Object &Pothos::Object::operator=(Object &&rhs)
 {
-    decr(_impl);
+    auto old = _impl;
     _impl = rhs._impl;
     rhs._impl = nullptr;
+    decr(old);
     return *this;
 }
 
-- 
2.43.0


From 176473f9eb04cfd11719e60738687e1ce1249c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:01 +0000
Subject: [PATCH 09/36] fix: unique() and ref() of a null Object do not
 dereference it

---
 lib/Object/Object.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Object/Object.cpp b/lib/Object/Object.cpp
index 48e046f..62763fd 100644
--- a/lib/Object/Object.cpp
+++ b/lib/Object/Object.cpp
@@ -107,7 +107,8 @@ Pothos::Object &Pothos::Object::operator=(Object &&rhs)
 
 bool Pothos::Object::unique(void) const
 {
-    return _impl->counter.load(std::memory_order_relaxed) == 1;
+    if (_impl == nullptr) return false;
+    return _impl->counter.load(std::memory_order_acquire) == 1;
 }
 
 std::string Pothos::Object::getTypeString(void) const
-- 
2.43.0


From 696cd66c650e93ecfbd9edef591f792cd77ce50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:26 +0000
Subject: [PATCH 10/36] fix: uniqueness of a ManagedBuffer is observed with
 acquire order before the memory is reused

---
 include/Pothos/Framework/ManagedBuffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Pothos/Framework/ManagedBuffer.hpp b/include/Pothos/Framework/ManagedBuffer.hpp
index ed8b90c..8628703 100644
--- a/include/Pothos/Framework/ManagedBuffer.hpp
+++ b/include/Pothos/Framework/ManagedBuffer.hpp
@@ -253,13 +253,13 @@ inline bool Pothos::ManagedBuffer::operator<(const ManagedBuffer &rhs) const
 inline bool Pothos::ManagedBuffer::unique(void) const
 {
     if (_impl == nullptr) return false;
-    return _impl->counter.load(std::memory_order_relaxed) == 1;
+    return _impl->counter.load(std::memory_order_acquire) == 1;
 }
 
 inline size_t Pothos::ManagedBuffer::useCount(void) const
 {
     if (_impl == nullptr) return 0;
-    return _impl->counter.load(std::memory_order_relaxed);
+    return _impl->counter.load(std::memory_order_acquire);
 }
 
 inline void Pothos::ManagedBuffer::setNextBuffer(const ManagedBuffer &next)
-- 
2.43.0


From 1be98dcf4ad06424e3d635fc04b81ea7cf6a2766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:56 +0000
Subject: [PATCH 11/36] fix: self-assignment of a BufferChunk keeps the
 references to its next buffers

---
 include/Pothos/Framework/BufferChunk.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Pothos/Framework/BufferChunk.hpp b/include/Pothos/Framework/BufferChunk.hpp
index 299f121..ba2c89f 100644
--- a/include/Pothos/Framework/BufferChunk.hpp
+++ b/include/Pothos/Framework/BufferChunk.hpp
@@ -350,6 +350,7 @@ inline Pothos::BufferChunk::~BufferChunk(void)
 
 inline Pothos::BufferChunk &Pothos::BufferChunk::operator=(const BufferChunk &other)
 {
+    if (this == &other) return *this;
     _decrNextBuffers();
     address = other.address;
     length = other.length;
-- 
2.43.0


From 2bba1207e8677e129859f39438d24b154321255e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:40 +0000
Subject: [PATCH 12/36] fix: self-assignment of a RingDeque keeps its elements

---
 include/Pothos/Util/RingDeque.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Pothos/Util/RingDeque.hpp b/include/Pothos/Util/RingDeque.hpp
index d0cf340..7ea893d 100644
--- a/include/Pothos/Util/RingDeque.hpp
+++ b/include/Pothos/Util/RingDeque.hpp
@@ -177,6 +177,7 @@ RingDeque<T, A>::RingDeque(RingDeque<T, A> &&other):
 template <typename T, typename A>
 RingDeque<T, A> &RingDeque<T, A>::operator=(const RingDeque<T, A> &other)
 {
+    if (this == &other) return *this;
     this->clear();
     this->set_capacity(other.capacity());
     for (size_t i = 0; i < other.size(); i++)
-- 
2.43.0


From 1b382527e56856f3ddcb3a32720b88bdf744a289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:53 +0000
Subject: [PATCH 13/36] fix: getBuffer() of an output port gives the front
 buffer the requested data type

---
 lib/Framework/OutputPort.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/Framework/OutputPort.cpp b/lib/Framework/OutputPort.cpp
index f5fb593..9af7a67 100644
--- a/lib/Framework/OutputPort.cpp
+++ b/lib/Framework/OutputPort.cpp
@@ -48,6 +48,7 @@ Pothos::BufferChunk Pothos::OutputPort::getBuffer(const DType &dtype, const size
     if (_buffer.length >= numBytes)
     {
         _buffer.length = numBytes;
+        _buffer.dtype = dtype;
         if (_bufferFromManager)
         {
             std::lock_guard<Util::SpinLock> lock(_bufferManagerLock);
-- 
2.43.0


From 0e8bf23646b6cce1b6dd1342a9d592ba69e2301b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:02 +0000
Subject: [PATCH 14/36] fix: BufferAccumulator::pop only moves pool bytes back
 into the chunk they were copied from

The remainder of the pool buffer was dropped in favour of the memory in
front of the next chunk whenever that chunk's buffer had room in front of
it, even when the remainder had been copied from other chunks and
that memory held unrelated data.
---
 include/Pothos/Framework/BufferAccumulator.hpp | 1 +
 lib/Framework/BufferAccumulator.cpp            | 8 ++++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/Pothos/Framework/BufferAccumulator.hpp b/include/Pothos/Framework/BufferAccumulator.hpp
index 914e115..d2fb2c9 100644
--- a/include/Pothos/Framework/BufferAccumulator.hpp
+++ b/include/Pothos/Framework/BufferAccumulator.hpp
@@ -87,6 +87,7 @@ private:
     Util::RingDeque<BufferChunk> _queue;
     size_t _bytesAvailable;
     bool _inPoolBuffer;
+    size_t _poolTailBytes; //tail of the pool buffer copied from front+1
     BufferPool _pool;
 };
 
diff --git a/lib/Framework/BufferAccumulator.cpp b/lib/Framework/BufferAccumulator.cpp
index 7dc7476..5cb60c8 100644
--- a/lib/Framework/BufferAccumulator.cpp
+++ b/lib/Framework/BufferAccumulator.cpp
@@ -16,7 +16,8 @@
 Pothos::BufferAccumulator::BufferAccumulator(void):
     _queue(64/*arbitrary*/),
     _bytesAvailable(0),
-    _inPoolBuffer(false)
+    _inPoolBuffer(false),
+    _poolTailBytes(0)
 {
     //never let the queue become empty -- hold an empty buffer
     if (_queue.empty()) _queue.push_front(BufferChunk());
@@ -27,6 +28,7 @@ void Pothos::BufferAccumulator::clear(void)
     _queue.clear();
     _bytesAvailable = 0;
     _inPoolBuffer = false;
+    _poolTailBytes = 0;
     _pool.clear();
 
     //never let the queue become empty -- hold an empty buffer
@@ -132,7 +134,7 @@ void Pothos::BufferAccumulator::pop(const size_t numBytes)
     //then pop the front and move into front+1.
     if (
         _inPoolBuffer and queue.size() > 1 and //pool in front
-        queue.front().length <= (queue[1].address - queue[1].getBuffer().getAddress()))
+        queue.front().length <= _poolTailBytes)
     {
         queue[1].address -= queue.front().length;
         queue[1].length += queue.front().length;
@@ -195,6 +197,7 @@ void Pothos::BufferAccumulator::require(const size_t numBytes)
     newBuffer.dtype = queue.front().dtype;
     size_t newBuffBytes = newBuffer.length;
     newBuffer.length = 0;
+    _poolTailBytes = 0;
 
     //copy from the queue into the new buffer
     while (not queue.empty())
@@ -220,6 +223,7 @@ void Pothos::BufferAccumulator::require(const size_t numBytes)
             assert(newBuffBytes == 0);
             f.length -= copyBytes;
             f.address += copyBytes;
+            _poolTailBytes = copyBytes;
             break;
         }
     }
-- 
2.43.0


From cc2b26ab59319c27263c059aec4154aad37fcb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:28 +0000
Subject: [PATCH 15/36] fix: sign extend negative 64-bit integers with the full
 width when loading an archive

---
 include/Pothos/Archive/Numbers.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Pothos/Archive/Numbers.hpp b/include/Pothos/Archive/Numbers.hpp
index c728386..d6ffcb5 100644
--- a/include/Pothos/Archive/Numbers.hpp
+++ b/include/Pothos/Archive/Numbers.hpp
@@ -138,7 +138,7 @@ typename std::enable_if<
 
     //sign extend the remaining bits when negative
     const auto signbit = byte & 0x40;
-    if (signbit != 0 and shift < (sizeof(T)*8)) t |= -(1 << shift);
+    if (signbit != 0 and shift < (sizeof(T)*8)) t |= static_cast<T>(~0ull << shift);
 }
 
 //------------ 32-64 bit unsigned integer types --------------//
-- 
2.43.0


From 93deecd8204641d397ee3b7bc6c52db0ceea1563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:28 +0000
Subject: [PATCH 16/36] fix: serialize all bytes of wide character strings

---
 include/Pothos/Archive/String.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Pothos/Archive/String.hpp b/include/Pothos/Archive/String.hpp
index c7a09d7..2e396ef 100644
--- a/include/Pothos/Archive/String.hpp
+++ b/include/Pothos/Archive/String.hpp
@@ -22,7 +22,7 @@ template<typename Archive, typename T, typename Traits, typename Allocator>
 void save(Archive &ar, const std::basic_string<T, Traits, Allocator> &t, const unsigned int)
 {
     ar << unsigned(t.size());
-    BinaryObject bo(t.data(), t.size());
+    BinaryObject bo(t.data(), t.size()*sizeof(T));
     ar << bo;
 }
 
@@ -32,7 +32,7 @@ void load(Archive &ar, std::basic_string<T, Traits, Allocator> &t, const unsigne
     unsigned size(0);
     ar >> size;
     t.resize(size);
-    BinaryObject bo(t.data(), t.size());
+    BinaryObject bo(t.data(), t.size()*sizeof(T));
     ar >> bo;
 }
 
-- 
2.43.0


From 394473e4b731f0ce72b53c11df6044d4026f33bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:49 +0000
Subject: [PATCH 17/36] fix: raise an error when the stream of an archive ends
 early

---
 lib/Archive/StreamArchiver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/Archive/StreamArchiver.cpp b/lib/Archive/StreamArchiver.cpp
index 1b95898..893e05f 100644
--- a/lib/Archive/StreamArchiver.cpp
+++ b/lib/Archive/StreamArchiver.cpp
@@ -3,6 +3,7 @@
 
 #include <Pothos/Archive/StreamArchiver.hpp>
 #include <Pothos/Archive/Numbers.hpp>
+#include <Pothos/Archive/Exception.hpp>
 #include <iostream>
 
 #define POTHOS_ARCHIVE_VERSION 2
@@ -29,4 +30,6 @@ void Pothos::Archive::IStreamArchiver::readBytes(void *buff, const size_t len)
 {
     if (len == 0) return;
     is.read(reinterpret_cast<char *>(buff), len);
+    if (size_t(is.gcount()) != len) throw Pothos::ArchiveException(
+        "IStreamArchiver::readBytes()", "unexpected end of stream");
 }
-- 
2.43.0


From 2323447ed82a07b4714820c2abcd6bc7f203a3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:49 +0000
Subject: [PATCH 18/36] fix: reject an encoded integer that is longer than its
 type

---
 include/Pothos/Archive/Numbers.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/Pothos/Archive/Numbers.hpp b/include/Pothos/Archive/Numbers.hpp
index d6ffcb5..75def2a 100644
--- a/include/Pothos/Archive/Numbers.hpp
+++ b/include/Pothos/Archive/Numbers.hpp
@@ -22,6 +22,7 @@
 #include <Pothos/Config.hpp>
 #include <Pothos/Archive/Invoke.hpp>
 #include <Pothos/Archive/BinaryObject.hpp>
+#include <Pothos/Archive/Exception.hpp>
 #include <type_traits>
 #include <limits> //is_iec559
 
@@ -132,6 +133,8 @@ typename std::enable_if<
     do
     {
         ar >> byte;
+        if (shift >= sizeof(T)*8) throw Pothos::ArchiveException(
+            "Pothos::serialization::load()", "encoded integer is too long");
         t |= T(byte & 0x7f) << shift;
         shift += 7;
     } while ((byte & 0x80) != 0);
@@ -175,6 +178,8 @@ typename std::enable_if<
     do
     {
         ar >> byte;
+        if (shift >= sizeof(T)*8) throw Pothos::ArchiveException(
+            "Pothos::serialization::load()", "encoded integer is too long");
         t |= T(byte & 0x7f) << shift;
         shift += 7;
     } while ((byte & 0x80) != 0);
-- 
2.43.0


From 139cd8b614caca4d1b26dd31e22029b3e83334e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:07 +0000
Subject: [PATCH 19/36] fix: do not leak or leave dangling a polymorphic object
 when loading it fails

---
 include/Pothos/Archive/ArchiveEntry.hpp | 5 +++--
 include/Pothos/Archive/Polymorphic.hpp  | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/Pothos/Archive/ArchiveEntry.hpp b/include/Pothos/Archive/ArchiveEntry.hpp
index 970cb03..bc5d1ed 100644
--- a/include/Pothos/Archive/ArchiveEntry.hpp
+++ b/include/Pothos/Archive/ArchiveEntry.hpp
@@ -16,6 +16,7 @@
 #include <typeinfo>
 #include <iosfwd>
 #include <string>
+#include <memory>
 
 namespace Pothos {
 namespace Archive {
@@ -104,7 +105,7 @@ void Pothos::Archive::ArchiveEntryT<T>::save(OStreamArchiver &ar, const void *t)
 template <typename T>
 void *Pothos::Archive::ArchiveEntryT<T>::load(IStreamArchiver &ar) const
 {
-    T *t = new T();
+    std::unique_ptr<T> t(new T());
     ar >> *t;
-    return t;
+    return t.release();
 }
diff --git a/include/Pothos/Archive/Polymorphic.hpp b/include/Pothos/Archive/Polymorphic.hpp
index e2680d8..11a36ea 100644
--- a/include/Pothos/Archive/Polymorphic.hpp
+++ b/include/Pothos/Archive/Polymorphic.hpp
@@ -35,6 +35,7 @@ load(Archive &ar, T* &t, const unsigned int)
     ar >> idHash;
     const auto &entry = Pothos::Archive::ArchiveEntry::find(idHash);
     delete t; //delete previous pointer or its null
+    t = nullptr; //in case the load throws
     t = static_cast<T*>(entry.load(ar));
 }
 
-- 
2.43.0


From 0374bb8cbd57287c44584ba6189a7e9d722d3b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:37 +0000
Subject: [PATCH 20/36] fix: disconnect a flow of the topology itself from the
 port list it was added to

---
 lib/Framework/Topology.cpp | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/lib/Framework/Topology.cpp b/lib/Framework/Topology.cpp
index 23ca564..a1fa652 100644
--- a/lib/Framework/Topology.cpp
+++ b/lib/Framework/Topology.cpp
@@ -208,22 +208,38 @@ void Pothos::Topology::_disconnect(
     flow.dst = _impl->makePort(dst, dstName);
 
     //validate that the ports exists before disconnection
-    std::vector<std::string> outs = getConnectable(src).call("outputPortNames");
-    if (std::find(outs.begin(), outs.end(), srcName) == outs.end())
-        throw Pothos::TopologyConnectError("Pothos::Topology::disconnect()", flow.src.toString() + " has no output port named " + srcName);
-
-    std::vector<std::string> ins = getConnectable(dst).call("inputPortNames");
-    if (std::find(ins.begin(), ins.end(), dstName) == ins.end())
-        throw Pothos::TopologyConnectError("Pothos::Topology::disconnect()", flow.dst.toString() + " has no input port named " + dstName);
+    if (flow.src.obj)
+    {
+        std::vector<std::string> outs = getConnectable(src).call("outputPortNames");
+        if (std::find(outs.begin(), outs.end(), srcName) == outs.end())
+            throw Pothos::TopologyConnectError("Pothos::Topology::disconnect()", flow.src.toString() + " has no output port named " + srcName);
+    }
 
-    //clear port info for disconnections from the hierarchy
-    if (not flow.src.obj) _impl->outputPortNames.erase(std::find(_impl->outputPortNames.begin(), _impl->outputPortNames.end(), srcName));
-    if (not flow.dst.obj) _impl->inputPortNames.erase(std::find(_impl->inputPortNames.begin(), _impl->inputPortNames.end(), dstName));
+    if (flow.dst.obj)
+    {
+        std::vector<std::string> ins = getConnectable(dst).call("inputPortNames");
+        if (std::find(ins.begin(), ins.end(), dstName) == ins.end())
+            throw Pothos::TopologyConnectError("Pothos::Topology::disconnect()", flow.dst.toString() + " has no input port named " + dstName);
+    }
 
     const auto it = std::find(_impl->flows.begin(), _impl->flows.end(), flow);
     if (it == _impl->flows.end()) throw Pothos::TopologyConnectError("Pothos::Topology::disconnect()",
         Poco::format("this flow does not exist in the topology(%s)", flow.toString()));
 
+    //clear port info for disconnections from the hierarchy
+    if (not flow.src.obj)
+    {
+        auto &names = _impl->inputPortNames;
+        const auto nameIt = std::find(names.begin(), names.end(), srcName);
+        if (nameIt != names.end()) names.erase(nameIt);
+    }
+    if (not flow.dst.obj)
+    {
+        auto &names = _impl->outputPortNames;
+        const auto nameIt = std::find(names.begin(), names.end(), dstName);
+        if (nameIt != names.end()) names.erase(nameIt);
+    }
+
     //perform auto-deletion, on a block this may or may not delete, on a topology this throws
     try{getConnectable(src).get("_actor").call("autoDeleteOutput", srcName);}catch(const Exception &){}
     try{getConnectable(dst).get("_actor").call("autoDeleteInput", dstName);}catch(const Exception &){}
-- 
2.43.0


From 5890d7ef341fa8d1597a88748fb1d00493d17462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:57 +0000
Subject: [PATCH 21/36] fix: refuse a duplicate flow before its port names are
 added to the topology

---
 lib/Framework/Topology.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/Framework/Topology.cpp b/lib/Framework/Topology.cpp
index a1fa652..889083d 100644
--- a/lib/Framework/Topology.cpp
+++ b/lib/Framework/Topology.cpp
@@ -147,6 +147,10 @@ void Pothos::Topology::_connect(
             throw Pothos::TopologyConnectError("Pothos::Topology::connect()", flow.dst.toString() + " has no input port named " + dstName);
     }
 
+    const auto it = std::find(_impl->flows.begin(), _impl->flows.end(), flow);
+    if (it != _impl->flows.end()) throw Pothos::TopologyConnectError("Pothos::Topology::connect()",
+        Poco::format("this flow already exists in the topology(%s)", flow.toString()));
+
     //store port info for connections to the hierarchy
     if (not flow.src.obj and flow.dst.obj)
     {
@@ -187,10 +191,6 @@ void Pothos::Topology::_connect(
         _impl->outputPortInfo[dstName].name = dstName;
     }
 
-    const auto it = std::find(_impl->flows.begin(), _impl->flows.end(), flow);
-    if (it != _impl->flows.end()) throw Pothos::TopologyConnectError("Pothos::Topology::connect()",
-        Poco::format("this flow already exists in the topology(%s)", flow.toString()));
-
     _impl->flows.push_back(flow);
 }
 
-- 
2.43.0


From 47b0cc21b56568fcbbefe1cae3571fa2ec649057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:05 +0000
Subject: [PATCH 22/36] fix: buffer managers with zero buffers must not index
 past the empty buffer list

---
 lib/Framework/Builtin/CircularBufferManager.cpp | 4 ++--
 lib/Framework/Builtin/GenericBufferManager.cpp  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/Framework/Builtin/CircularBufferManager.cpp b/lib/Framework/Builtin/CircularBufferManager.cpp
index 7769c37..2a77c72 100644
--- a/lib/Framework/Builtin/CircularBufferManager.cpp
+++ b/lib/Framework/Builtin/CircularBufferManager.cpp
@@ -55,11 +55,11 @@ public:
         }
 
         //set the next buffer pointers
-        for (size_t i = 0; i < managedBuffers.size()-1; i++)
+        for (size_t i = 0; i+1 < managedBuffers.size(); i++)
         {
             managedBuffers[i].setNextBuffer(managedBuffers[i+1]);
         }
-        managedBuffers.back().setNextBuffer(managedBuffers.front());
+        if (not managedBuffers.empty()) managedBuffers.back().setNextBuffer(managedBuffers.front());
     }
 
     bool empty(void) const
diff --git a/lib/Framework/Builtin/GenericBufferManager.cpp b/lib/Framework/Builtin/GenericBufferManager.cpp
index 866b65f..88e727b 100644
--- a/lib/Framework/Builtin/GenericBufferManager.cpp
+++ b/lib/Framework/Builtin/GenericBufferManager.cpp
@@ -52,7 +52,7 @@ public:
         }
 
         //set the next buffer pointers
-        for (size_t i = 0; i < managedBuffers.size()-1; i++)
+        for (size_t i = 0; i+1 < managedBuffers.size(); i++)
         {
             managedBuffers[i].setNextBuffer(managedBuffers[i+1]);
         }
-- 
2.43.0


From 8628757d4d92e90c852bc70b0816695432c6b314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:42 +0000
Subject: [PATCH 23/36] fix: an unbalanced closing bracket must not read the
 top of an empty stack in EvalEnvironment::splitExpr

---
 lib/Util/EvalEnvironmentListParsers.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/Util/EvalEnvironmentListParsers.cpp b/lib/Util/EvalEnvironmentListParsers.cpp
index 5101706..0485f77 100644
--- a/lib/Util/EvalEnvironmentListParsers.cpp
+++ b/lib/Util/EvalEnvironmentListParsers.cpp
@@ -26,9 +26,10 @@ std::vector<std::string> Pothos::Util::EvalEnvironment::splitExpr(const std::str
         else if ((ch == ')' and tokenizer != '\0') or ch == '}' or ch == ']')
         {
             field.push_back(ch);
-            if ((specials.top() == '(' and ch == ')') or
+            if (not specials.empty() and (
+                (specials.top() == '(' and ch == ')') or
                 (specials.top() == '{' and ch == '}') or
-                (specials.top() == '[' and ch == ']')) specials.pop();
+                (specials.top() == '[' and ch == ']'))) specials.pop();
 
             //top level container ended
             if (specials.empty() and tokenizer == '\0')
-- 
2.43.0


From 4f7f8e9ffd9313ed5c729dfdf316cf70fc338e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:49 +0000
Subject: [PATCH 24/36] fix: a connection that fails while reading the port
 info must not leave its port name in the topology

---
 lib/Framework/Topology.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Framework/Topology.cpp b/lib/Framework/Topology.cpp
index 889083d..827b4cc 100644
--- a/lib/Framework/Topology.cpp
+++ b/lib/Framework/Topology.cpp
@@ -154,7 +154,6 @@ void Pothos::Topology::_connect(
     //store port info for connections to the hierarchy
     if (not flow.src.obj and flow.dst.obj)
     {
-        _impl->inputPortNames.push_back(srcName);
         for (const auto &info : getConnectable(dst).call<std::vector<PortInfo>>("inputPortInfo"))
         {
             if (info.name == dstName)
@@ -166,10 +165,10 @@ void Pothos::Topology::_connect(
                 newInfo.dtype = info.dtype;
             }
         }
+        _impl->inputPortNames.push_back(srcName);
     }
     if (not flow.dst.obj and flow.src.obj)
     {
-        _impl->outputPortNames.push_back(dstName);
         for (const auto &info : getConnectable(src).call<std::vector<PortInfo>>("outputPortInfo"))
         {
             if (info.name == srcName)
@@ -181,6 +180,7 @@ void Pothos::Topology::_connect(
                 newInfo.dtype = info.dtype;
             }
         }
+        _impl->outputPortNames.push_back(dstName);
     }
     if (not flow.src.obj and not flow.dst.obj)
     {
-- 
2.43.0


From 774dd69114d3e738736be7eba50a0072af8d69c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:49 +0000
Subject: [PATCH 25/36] fix: disconnectAll must not leave the port names of
 removed connections in the topology

---
 lib/Framework/Topology.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/Framework/Topology.cpp b/lib/Framework/Topology.cpp
index 827b4cc..6cb5556 100644
--- a/lib/Framework/Topology.cpp
+++ b/lib/Framework/Topology.cpp
@@ -275,6 +275,10 @@ void Pothos::Topology::disconnectAll(const bool recursive)
 
     //clear our own local flows
     _impl->flows.clear();
+
+    //without flows there are no connections to the hierarchy
+    _impl->inputPortNames.clear();
+    _impl->outputPortNames.clear();
 }
 
 bool Pothos::Topology::waitInactive(const double idleDuration, const double timeout)
-- 
2.43.0


From 02370c8dba9f9df07377bc1d11a9dd71ffe7aeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:54 +0000
Subject: [PATCH 26/36] fix: a thread pool that cannot start a thread must take
 back the registration of the task

---
 lib/Framework/ThreadEnvironment.cpp | 43 ++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/lib/Framework/ThreadEnvironment.cpp b/lib/Framework/ThreadEnvironment.cpp
index f432141..b7a0d58 100644
--- a/lib/Framework/ThreadEnvironment.cpp
+++ b/lib/Framework/ThreadEnvironment.cpp
@@ -32,28 +32,39 @@ void ThreadEnvironment::registerTask(void *handle, TaskData::Task task, TaskData
     std::swap(waitModeEnabled, _waitModeEnabled);
 
     //register the new task and bump the signature to notify threads
-    {
-        std::lock_guard<std::mutex> lock0(_handleUpdateMutex);
-        _handleToTask[handle].reset(new TaskData(task, wake));
-        _configurationSignature++;
-    }
+    //existing threads cannot see the task until this lock is released
+    std::unique_lock<std::mutex> lock0(_handleUpdateMutex);
+    _handleToTask[handle].reset(new TaskData(task, wake));
+    _configurationSignature++;
 
-    //single task mode: spawn a new thread for this task
-    if (_args.numThreads == 0)
+    try
     {
-        _handleToThread[handle] = std::thread(std::bind(&ThreadEnvironment::singleProcessLoop, this, handle));
-    }
+        //single task mode: spawn a new thread for this task
+        if (_args.numThreads == 0)
+        {
+            _handleToThread[handle] = std::thread(std::bind(&ThreadEnvironment::singleProcessLoop, this, handle));
+        }
 
-    //pool mode: start a thread if the pool size is too small
-    else
-    {
-        if (_threadPool.size() < _args.numThreads)
+        //pool mode: start a thread if the pool size is too small
+        else
         {
-            size_t index = _threadPool.size();
-            _threadPool.push_back(std::thread(std::bind(&ThreadEnvironment::poolProcessLoop, this, index)));
+            if (_threadPool.size() < _args.numThreads)
+            {
+                size_t index = _threadPool.size();
+                _threadPool.push_back(std::thread(std::bind(&ThreadEnvironment::poolProcessLoop, this, index)));
+            }
+            assert(_threadPool.size() <= _args.numThreads);
         }
-        assert(_threadPool.size() <= _args.numThreads);
     }
+    catch (...)
+    {
+        //the thread could not be started, take back the registration
+        _handleToTask.erase(handle);
+        _handleToThread.erase(handle);
+        std::swap(waitModeEnabled, _waitModeEnabled);
+        throw;
+    }
+    lock0.unlock();
 
     //restore wait mode
     std::swap(waitModeEnabled, _waitModeEnabled);
-- 
2.43.0


From 1b33e0b940f8ba9c76ad00d1869be9df1b5e4edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:27 +0000
Subject: [PATCH 27/36] fix: a block that fails to register with a new thread
 pool must not keep the old one

---
 lib/Framework/Block.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/Framework/Block.cpp b/lib/Framework/Block.cpp
index a98c0ae..2637846 100644
--- a/lib/Framework/Block.cpp
+++ b/lib/Framework/Block.cpp
@@ -22,6 +22,7 @@ void Pothos::Block::setThreadPool(const ThreadPool &newThreadPool)
     {
         auto threads = std::static_pointer_cast<ThreadEnvironment>(_threadPool.getContainer());
         threads->unregisterTask(this);
+        _threadPool = ThreadPool(); //not registered anymore, even if the below fails
     }
 
     //register if the new thread pool is valid
-- 
2.43.0


From c4d163f92ba54436506488578e12f5997a83a027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:54 +0000
Subject: [PATCH 28/36] fix: the wait mode of a thread environment is read by
 its threads while it is changed

---
 lib/Framework/ThreadEnvironment.cpp | 10 +++++-----
 lib/Framework/ThreadEnvironment.hpp |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/Framework/ThreadEnvironment.cpp b/lib/Framework/ThreadEnvironment.cpp
index b7a0d58..292d806 100644
--- a/lib/Framework/ThreadEnvironment.cpp
+++ b/lib/Framework/ThreadEnvironment.cpp
@@ -29,7 +29,7 @@ void ThreadEnvironment::registerTask(void *handle, TaskData::Task task, TaskData
 
     //disable wait mode
     bool waitModeEnabled = false;
-    std::swap(waitModeEnabled, _waitModeEnabled);
+    waitModeEnabled = _waitModeEnabled.exchange(waitModeEnabled);
 
     //register the new task and bump the signature to notify threads
     //existing threads cannot see the task until this lock is released
@@ -61,13 +61,13 @@ void ThreadEnvironment::registerTask(void *handle, TaskData::Task task, TaskData
         //the thread could not be started, take back the registration
         _handleToTask.erase(handle);
         _handleToThread.erase(handle);
-        std::swap(waitModeEnabled, _waitModeEnabled);
+        waitModeEnabled = _waitModeEnabled.exchange(waitModeEnabled);
         throw;
     }
     lock0.unlock();
 
     //restore wait mode
-    std::swap(waitModeEnabled, _waitModeEnabled);
+    waitModeEnabled = _waitModeEnabled.exchange(waitModeEnabled);
 }
 
 void ThreadEnvironment::unregisterTask(void *handle)
@@ -77,7 +77,7 @@ void ThreadEnvironment::unregisterTask(void *handle)
 
     //disable wait mode
     bool waitModeEnabled = false;
-    std::swap(waitModeEnabled, _waitModeEnabled);
+    waitModeEnabled = _waitModeEnabled.exchange(waitModeEnabled);
 
     //unregister the new task and bump the signature to notify threads
     {
@@ -113,7 +113,7 @@ void ThreadEnvironment::unregisterTask(void *handle)
     while (not data.unique()) std::this_thread::sleep_for(std::chrono::milliseconds(1));
 
     //restore wait mode
-    std::swap(waitModeEnabled, _waitModeEnabled);
+    waitModeEnabled = _waitModeEnabled.exchange(waitModeEnabled);
 }
 
 /*!
diff --git a/lib/Framework/ThreadEnvironment.hpp b/lib/Framework/ThreadEnvironment.hpp
index 78337db..3013784 100644
--- a/lib/Framework/ThreadEnvironment.hpp
+++ b/lib/Framework/ThreadEnvironment.hpp
@@ -106,7 +106,7 @@ private:
     Pothos::ThreadPoolArgs _args;
 
     //whether or not waiting is allowed based on args
-    bool _waitModeEnabled;
+    std::atomic<bool> _waitModeEnabled;
 
     //map of handle handles to tasks
     std::map<void *, std::shared_ptr<TaskData>> _handleToTask;
-- 
2.43.0


From 51665778470dc9011645e220915ca82e21f9005e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:09 +0000
Subject: [PATCH 29/36] fix: memory mapped file errors must report errno, not
 the return value -1

---
 lib/Framework/MemoryMappedBufferContainer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Framework/MemoryMappedBufferContainer.cpp b/lib/Framework/MemoryMappedBufferContainer.cpp
index 306c11e..035c78f 100644
--- a/lib/Framework/MemoryMappedBufferContainer.cpp
+++ b/lib/Framework/MemoryMappedBufferContainer.cpp
@@ -25,7 +25,7 @@ static Poco::Logger& getLogger()
 template <typename ExcType = Pothos::RuntimeException>
 static inline void throwErrnoOnFailure(int code)
 {
-    if(code < 0) throw Pothos::Util::ErrnoException<ExcType>(code);
+    if(code < 0) throw Pothos::Util::ErrnoException<ExcType>(errno);
 }
 
 static void logErrnoOnFailure(int code, const char* context)
-- 
2.43.0


From 9828d09ef9c01ec345013788453c8a0c59b61af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:09 +0000
Subject: [PATCH 30/36] fix: a file that cannot be mapped must not leave its
 file descriptor open

---
 lib/Framework/MemoryMappedBufferContainer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/Framework/MemoryMappedBufferContainer.cpp b/lib/Framework/MemoryMappedBufferContainer.cpp
index 035c78f..149847f 100644
--- a/lib/Framework/MemoryMappedBufferContainer.cpp
+++ b/lib/Framework/MemoryMappedBufferContainer.cpp
@@ -67,10 +67,13 @@ public:
         _buffer = ::mmap(nullptr, _length, mmapProt, mmapFlags, fd, 0);
         if(!_buffer || (MAP_FAILED == _buffer))
         {
-            throw Pothos::IOException("mmap", ::strerror(errno));
+            const int mmapErrno = errno;
+            logErrnoOnFailure(::close(fd), "close");
+            throw Pothos::IOException("mmap", ::strerror(mmapErrno));
         }
 
-        throwErrnoOnFailure<Pothos::FileException>(::close(fd));
+        //the mapping does not need the file descriptor anymore
+        logErrnoOnFailure(::close(fd), "close");
     }
 
     ~Impl()
-- 
2.43.0


From 2731aa0ab66d5b9c569ed7f5872cf0088b7f72c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:09 +0000
Subject: [PATCH 31/36] fix: a file lock that cannot be opened must not leak
 its private data

---
 lib/Util/FileLockUnix.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/Util/FileLockUnix.cpp b/lib/Util/FileLockUnix.cpp
index cb47bcb..33a3696 100644
--- a/lib/Util/FileLockUnix.cpp
+++ b/lib/Util/FileLockUnix.cpp
@@ -30,7 +30,12 @@ Pothos::Util::FileLock::FileLock(const std::string &filePath):
     _impl(new Impl())
 {
     _impl->fd = open(filePath.c_str(), O_RDONLY | O_CREAT, S_IRUSR | S_IWUSR | S_IRGRP | S_IROTH);
-    if (_impl->fd == -1) throw Pothos::RuntimeException("Pothos::Util::FileLock("+filePath+")", strerror(errno));
+    if (_impl->fd == -1)
+    {
+        const int errnoSave = errno;
+        delete _impl;
+        throw Pothos::RuntimeException("Pothos::Util::FileLock("+filePath+")", strerror(errnoSave));
+    }
 }
 
 Pothos::Util::FileLock::~FileLock(void)
-- 
2.43.0


From 5112a34ad405c969c0bb80cfa84c1405d3a36bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:09 +0000
Subject: [PATCH 32/36] fix: a circular buffer must not be used when its halves
 were not mapped side by side

---
 lib/Framework/SharedBufferUnix.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/Framework/SharedBufferUnix.cpp b/lib/Framework/SharedBufferUnix.cpp
index da55b32..25baee3 100644
--- a/lib/Framework/SharedBufferUnix.cpp
+++ b/lib/Framework/SharedBufferUnix.cpp
@@ -185,6 +185,7 @@ CircularBufferContainer::CircularBufferContainer(const size_t numBytes):
         MAP_SHARED,
         tmpFd, off_t(0));
     if (mapPtr0 == MAP_FAILED) this->errorOut("mmap(0)");
+    if (mapPtr0 != virtualAddr2X) this->errorOut("mmap(0) address taken");
 
     mapPtr1 = mmap(
         (void *)(size_t(virtualAddr2X) + numBytes),
@@ -193,6 +194,7 @@ CircularBufferContainer::CircularBufferContainer(const size_t numBytes):
         MAP_SHARED,
         tmpFd, off_t(0));
     if (mapPtr1 == MAP_FAILED) this->errorOut("mmap(1)");
+    if (mapPtr1 != (void *)(size_t(virtualAddr2X) + numBytes)) this->errorOut("mmap(1) address taken");
 }
 
 /***********************************************************************
-- 
2.43.0


From 55cfa2525424d3d4131aca5d90579bbca9d77cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:36 +0000
Subject: [PATCH 33/36] fix: a module that fails to load must not stay the
 active module

---
 lib/Plugin/Module.cpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/lib/Plugin/Module.cpp b/lib/Plugin/Module.cpp
index fdc6554..bc6bb36 100644
--- a/lib/Plugin/Module.cpp
+++ b/lib/Plugin/Module.cpp
@@ -58,6 +58,21 @@ static std::mutex &getModuleMutex(void)
 //where to store the version during module load
 static thread_local std::string *currentModuleVersion(nullptr);
 
+//the module is active while it loads, also when the load fails
+struct ActiveModuleGuard
+{
+    ActiveModuleGuard(const Pothos::PluginModule &module, std::string &version)
+    {
+        registrySetActiveModuleLoading(module);
+        currentModuleVersion = &version;
+    }
+    ~ActiveModuleGuard(void)
+    {
+        currentModuleVersion = nullptr;
+        registrySetActiveModuleLoading(Pothos::PluginModule());
+    }
+};
+
 /***********************************************************************
  * Shared implementation for module data
  **********************************************************************/
@@ -91,12 +106,11 @@ Pothos::PluginModule::PluginModule(const std::string &path):
     try
     {
         std::lock_guard<std::mutex> lock(getModuleMutex());
-        registrySetActiveModuleLoading(*this);
-        currentModuleVersion = &(_impl->version);
-        ErrorMessageDisableGuard emdg;
-        _impl->sharedLibrary.load(path);
-        currentModuleVersion = nullptr;
-        registrySetActiveModuleLoading(PluginModule());
+        {
+            ActiveModuleGuard amg(*this, _impl->version);
+            ErrorMessageDisableGuard emdg;
+            _impl->sharedLibrary.load(path);
+        }
         _impl->pluginPaths = ::getPluginPaths(*this);
     }
     catch(const Poco::LibraryLoadException &ex)
-- 
2.43.0


From 0dcf45f2a3da2d015b2f11ad070d84949166d545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:37 +0000
Subject: [PATCH 34/36] fix: unloading a module must not throw when its plugins
 are already removed

---
 lib/Plugin/Module.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/Plugin/Module.cpp b/lib/Plugin/Module.cpp
index bc6bb36..cbf3311 100644
--- a/lib/Plugin/Module.cpp
+++ b/lib/Plugin/Module.cpp
@@ -128,7 +128,12 @@ Pothos::PluginModule::~PluginModule(void)
     poco_debug(Poco::Logger::get("Pothos.PluginModule.unload"), _impl->sharedLibrary.getPath());
     for (const auto &pluginPath : this->getPluginPaths())
     {
-        PluginRegistry::remove(pluginPath);
+        //the plugin may be removed already or belong to another handle of the same file
+        try
+        {
+            if (PluginRegistry::get(pluginPath).getModule()._impl == _impl) PluginRegistry::remove(pluginPath);
+        }
+        catch (const PluginRegistryError &){}
     }
     _impl->sharedLibrary.unload();
 }
-- 
2.43.0


From fa995e9f25004cb5516a550952f4da439f946ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:37 +0000
Subject: [PATCH 35/36] fix: the plugin paths of a null module are empty

---
 lib/Plugin/Module.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/Plugin/Module.cpp b/lib/Plugin/Module.cpp
index cbf3311..8711f4a 100644
--- a/lib/Plugin/Module.cpp
+++ b/lib/Plugin/Module.cpp
@@ -146,6 +146,8 @@ std::string Pothos::PluginModule::getFilePath(void) const
 
 const std::vector<std::string> &Pothos::PluginModule::getPluginPaths(void) const
 {
+    static const std::vector<std::string> noPluginPaths;
+    if (not _impl) return noPluginPaths;
     return _impl->pluginPaths;
 }
 
-- 
2.43.0


From 57db7a2a392b8505eb57a533b02f3a1bb6ee4bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:34 +0000
Subject: [PATCH 36/36] fix: a module tested with another build of the library
 must be tested again

---
 lib/Plugin/ModuleSafeLoad.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/Plugin/ModuleSafeLoad.cpp b/lib/Plugin/ModuleSafeLoad.cpp
index e34fa28..f38e1e5 100644
--- a/lib/Plugin/ModuleSafeLoad.cpp
+++ b/lib/Plugin/ModuleSafeLoad.cpp
@@ -95,7 +95,10 @@ static void markCurrentLoadSuccessful(const std::string &modulePath)
 
     auto libTime = getLastModifiedTimeStr(Pothos::System::getPothosRuntimeLibraryPath());
     auto modTime = getLastModifiedTimeStr(modulePath);
-    cache->setString(escape(Pothos::System::getPothosRuntimeLibraryPath()), libTime);
+    const auto libKey = escape(Pothos::System::getPothosRuntimeLibraryPath());
+    //the entries made with another build of the library are not valid for this one
+    if (cache->getString(libKey, "") != libTime) cache = new Poco::Util::PropertyFileConfiguration();
+    cache->setString(libKey, libTime);
     cache->setString(escape(modulePath), modTime);
     try {cache->save(getModuleLoaderCachePath());} catch(...){}
 }
-- 
2.43.0

