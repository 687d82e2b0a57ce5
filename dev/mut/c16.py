def m(n, *a, **k):
    MUTANTS.append((n, 'C16', [tuple(a[i:i+3]) for i in range(0, len(a), 3)], k.get("e", C)))
q=lambda *a: m(*a, e=Q)
RP='lib/Remote/RemoteProxy.cpp'; RH='lib/Remote/RemoteProxyHandle.cpp'; SH='lib/Remote/ServerHandler.cpp'; DG='lib/Remote/RemoteProxyDatagram.cpp'
# bugs
m('c16b-tid-late', SH, '    replyArgs["tid"] = reqArgs.at("tid");\n    POTHOS_EXCEPTION_TRY\n    {', '    POTHOS_EXCEPTION_TRY\n    {\n        replyArgs["tid"] = reqArgs.at("tid");\n        const auto &check = reqArgs.at("action").type();\n        if (check != typeid(std::string)) return done;')
m('c16b-two-replies', SH, '            removeObjectAtId(reqArgs.at("envID"));\n            done = true;', '            removeObjectAtId(reqArgs.at("envID"));\n            sendDatagram(os, replyArgs);\n            done = true;')
m('c16b-noreply-done', SH, '    //serialize the reply, the result', '    if (done) return done;\n    //serialize the reply, the result')
m('c16b-err-tid', SH, '        errorArgs["tid"] = reqArgs.at("tid");\n', '')
m('c16b-err-empty', SH, '        errorArgs["errorMsg"] = Pothos::Object(ex.displayText());\n', '')
m('c16b-inner-all', SH, 'catch (const Pothos::ProxyExceptionMessage &ex)', 'catch (const Pothos::ProxyExceptionMessage &ex) { replyArgs["handleID"] = Pothos::Object(size_t(0)); }\n            catch (const Pothos::Exception &ex)')
m('c16b-call-swallow', SH, '''            catch (const Pothos::ProxyExceptionMessage &ex)
            {
                replyArgs["message"] = Pothos::Object(ex.message());
            }''', '''            catch (const Pothos::ProxyExceptionMessage &ex)
            {
                poco_bugcheck_msg(ex.message().c_str());
            }
            catch (const std::exception &)
            {
                return false;
            }''')
m('c16b-toString-key', SH, 'replyArgs["result"] = Pothos::Object(proxy.toString());', 'if (proxy) replyArgs["result"] = Pothos::Object(proxy.toString());')
m('c16b-find-key', SH, '''            const auto &proxy = env->findProxy(reqArgs.at("name").extract<std::string>());
            replyArgs["handleID"] = getNewObjectId(Pothos::Object(proxy));''', '''            const auto &proxy = env->findProxy(reqArgs.at("name").extract<std::string>());
            if (not proxy) replyArgs["proxy"] = Pothos::Object(proxy);
            else replyArgs["handleID"] = getNewObjectId(Pothos::Object(proxy));''')
m('c16b-conv-noenv', RP, '    req["action"] = Pothos::Object("convertProxyToObject");\n    req["envID"] = Pothos::Object(this->remoteID);\n', '    req["action"] = Pothos::Object("convertProxyToObject");\n')
m('c16b-noother', RH, '    req["otherID"] = Pothos::Object(handle->remoteID);\n', '    if (handle->env == env) req["otherID"] = Pothos::Object(handle->remoteID);\n')
m('c16b-action', RH, 'Pothos::Object("getClassName")', 'Pothos::Object("className")')
m('c16b-args-from1', RH, 'req[std::to_string(i)] =', 'req[std::to_string(i+1)] =')
m('c16b-done-handle', SH, 'while (is.good() and os.good() and not done)', 'while (is.good() and os.good())')
m('c16b-wait-noloop', RP, '            isCond.wait(lock);\n            continue; //reply may be available, return to loop start\n', '            isCond.wait(lock);\n')
m('c16b-reply-keep', RP, '            tidToReply.erase(it);\n', '')
m('c16b-reply-nolock', RP, '        lock.lock();\n        isBlocking = false;\n\n        //this', '        isBlocking = false;\n        lock.lock();\n\n        //this')
m('c16b-throw-blocking', RP, '''            lock.lock();
            isBlocking = false;
            lock.unlock();
            isCond.notify_all();
            throw Pothos::IOException("RemoteProxyEnvironment::recv''', '''            throw Pothos::IOException("RemoteProxyEnvironment::recv''')
m('c16b-notify-one', RP, '''        tidToReply[replyTid] = replyArgs;
        lock.unlock();
        isCond.notify_all();''', '''        tidToReply[replyTid] = replyArgs;
        lock.unlock();
        isCond.notify_one();''')
m('c16b-tid-compare', RP, 'if (replyTid == tid)', 'if (replyTid == tid or replyArgs.count("errorMsg") != 0)')
m('c16b-inactive', RP, '''    if (not connectionActive)
    {
        throw Pothos::IOException("RemoteProxyEnvironment::transact()", "connection inactive");
    }
''', '''    if (not connectionActive) return Pothos::ObjectKwargs();
''')
m('c16b-send-swallow', RP, '''        connectionActive = false;
        throw Pothos::IOException("RemoteProxyEnvironment::sendDatagram()", ex.message());''', '''        connectionActive = false;''')
m('c16b-recv-in-try', RP, '            replyTid = replyArgs.at("tid");\n        }', '        }', RP, '        lock.lock();\n        isBlocking = false;\n\n        //this', '        replyTid = replyArgs.at("tid");\n        lock.lock();\n        isBlocking = false;\n\n        //this')
m('c16b-id-reuse', SH, '    getObjectsMap()[++id] = obj;', '    id = getObjectsMap().size();\n    getObjectsMap()[++id] = obj;')
m('c16b-id-nolock', SH, '''    const size_t key(id);
    std::lock_guard<std::mutex> lock(getObjectsMutex());
    getObjectsMap().erase(key);''', '''    const size_t key(id);
    getObjectsMap().erase(key);''')
m('c16b-get-erase', SH, 'return getObjectsMap().at(key);', 'auto o = getObjectsMap().at(key);\n    getObjectsMap().erase(key);\n    return o;')
m('c16b-dtor-env-throws', RP, '''    try
    {
        this->transact(req);
    }
    catch(const Pothos::Exception &ex)
    {
        if (not this->connectionActive) return;''', '''    if (this->connectionActive) this->transact(req);
    try {}
    catch(const Pothos::Exception &ex)
    {
        if (not this->connectionActive) return;''')
m('c16b-dtor-handle-skip', RH, '''    try
    {
        env->transact(req);''', '''    try
    {
        if (env.unique()) env->transact(req);''')
m('c16b-hash-errnocheck', RH, '''        "RemoteProxyHandle::hashCode()", errorMsgIt''', '''        "RemoteProxyHandle::hashCode()", errorMsgIt''', RH, '''    req["action"] = Pothos::Object("hashCode");
    req["handleID"] = Pothos::Object(this->remoteID);

    auto reply = env->transact(req);

    //check for an error
    auto errorMsgIt = reply.find("errorMsg");
    if (errorMsgIt != reply.end()) throw''', '''    req["action"] = Pothos::Object("hashCode");
    req["handleID"] = Pothos::Object(this->remoteID);

    auto reply = env->transact(req);

    //check for an error
    auto errorMsgIt = reply.find("errorMsg");
    if (errorMsgIt != reply.end() and reply.count("result") == 0 and errorMsgIt->second) throw''')
# refactors
q('c16b-q-lockguard', RP, '''            lock.lock();
            isBlocking = false;
            lock.unlock();
            isCond.notify_all();
            throw''', '''            {
                std::lock_guard<std::mutex> l(isMutex);
                isBlocking = false;
            }
            isCond.notify_all();
            throw''')
q('c16b-q-notifylocked', RP, '''        tidToReply[replyTid] = replyArgs;
        lock.unlock();
        isCond.notify_all();''', '''        tidToReply[replyTid] = std::move(replyArgs);
        isCond.notify_all();''')
q('c16b-q-req-init', RH, '''    Pothos::ObjectKwargs req;
    req["action"] = Pothos::Object("hashCode");
    req["handleID"] = Pothos::Object(this->remoteID);''', '''    Pothos::ObjectKwargs req;
    req.emplace("action", Pothos::Object("hashCode"));
    req["handleID"] = Pothos::Object(this->remoteID);''')
q('c16b-q-req-list', RH, '''    Pothos::ObjectKwargs req;
    req["action"] = Pothos::Object("toString");
    req["handleID"] = Pothos::Object(this->remoteID);''', '''    const Pothos::ObjectKwargs req{
        {"action", Pothos::Object("toString")},
        {"handleID", Pothos::Object(this->remoteID)}};''')
q('c16b-q-count', RH, '''    auto errorMsgIt = reply.find("errorMsg");
    if (errorMsgIt != reply.end()) throw Pothos::ProxyHandleCallError(
        "RemoteProxyHandle::toString()", errorMsgIt->second.extract<std::string>());''', '''    if (reply.count("errorMsg") != 0) throw Pothos::ProxyHandleCallError(
        "RemoteProxyHandle::toString()", reply.at("errorMsg").extract<std::string>());''')
q('c16b-q-at', RH, 'return env->makeHandle(reply["handleID"]);', 'const size_t newID = reply.at("handleID").convert<size_t>();\n    return env->makeHandle(newID);')
q('c16b-q-tidhelper', SH, '    replyArgs["tid"] = reqArgs.at("tid");\n    POTHOS', '    const auto &reqTid = reqArgs.at("tid");\n    replyArgs["tid"] = reqTid;\n    POTHOS')
q('c16b-q-helper', SH, '''bool Pothos::RemoteHandler::runHandlerOnce(''', '''static Pothos::Proxy getProxyAtId(const Pothos::ObjectKwargs &args, const std::string &key)
{
    return getObjectAtId(args.at(key)).extract<Pothos::Proxy>();
}

bool Pothos::RemoteHandler::runHandlerOnce(''', SH, '''            const auto &proxy = getObjectAtId(reqArgs.at("handleID")).extract<Pothos::Proxy>();
            const auto &other = getObjectAtId(reqArgs.at("otherID")).extract<Pothos::Proxy>();''', '''            const auto proxy = getProxyAtId(reqArgs, "handleID");
            const auto other = getProxyAtId(reqArgs, "otherID");''')
q('c16b-q-argloop', SH, '''            size_t argNo = 0;
            while (true)
            {
                auto it = reqArgs.find(std::to_string(argNo++));
                if (it == reqArgs.end()) break;
                args.push_back(''', '''            for (size_t argNo = 0;; argNo++)
            {
                const auto it = reqArgs.find(std::to_string(argNo));
                if (it == reqArgs.end()) break;
                args.emplace_back(''')
q('c16b-q-run', SH, '''    bool done = false;
    while (is.good() and os.good() and not done)
    {
        done = runHandlerOnce(is, os);
    }''', '''    while (is.good() and os.good())
    {
        if (runHandlerOnce(is, os)) break;
    }''')
q('c16b-q-sendhelper', SH, '''bool Pothos::RemoteHandler::runHandlerOnce(''', '''static void sendError(std::ostream &os, const Pothos::Object &tid, const std::string &msg)
{
    Pothos::ObjectKwargs errorArgs;
    errorArgs["tid"] = tid;
    errorArgs["errorMsg"] = Pothos::Object(msg);
    sendDatagram(os, errorArgs);
}

bool Pothos::RemoteHandler::runHandlerOnce(''', SH, '''        Pothos::ObjectKwargs errorArgs;
        errorArgs["tid"] = reqArgs.at("tid");
        errorArgs["errorMsg"] = Pothos::Object(ex.displayText());
        sendDatagram(os, errorArgs);
    }

    return done;''', '''        sendError(os, reqArgs.at("tid"), ex.displayText());
    }

    return done;''')
q('c16b-q-split', SH, '''        if (action == "RemoteProxyEnvironment")
        {
            Pothos::ProxyEnvironmentArgs envArgs;
            for (const auto &entry : reqArgs)
            {
                if (entry.second.type() != typeid(std::string)) continue;
                envArgs[entry.first] = entry.second.extract<std::string>();
            }
''', '''        if (action == "RemoteProxyEnvironment")
        {
            const auto envArgs = toEnvArgs(reqArgs);
''', SH, '''bool Pothos::RemoteHandler::runHandlerOnce(''', '''static Pothos::ProxyEnvironmentArgs toEnvArgs(const Pothos::ObjectKwargs &reqArgs)
{
    Pothos::ProxyEnvironmentArgs envArgs;
    for (const auto &entry : reqArgs)
    {
        if (entry.second.type() == typeid(std::string)) envArgs[entry.first] = entry.second.extract<std::string>();
    }
    return envArgs;
}

bool Pothos::RemoteHandler::runHandlerOnce(''')
q('c16b-q-while', RP, '''        if (isBlocking)
        {
            isCond.wait(lock);
            continue; //reply may be available, return to loop start
        }
''', '''        while (isBlocking and tidToReply.count(tid) == 0) isCond.wait(lock);
        if (isBlocking or tidToReply.count(tid) != 0) continue;
''')
q('c16b-q-getlock', SH, '''    std::lock_guard<std::mutex> lock(getObjectsMutex());
    return getObjectsMap().at(key);''', '''    std::unique_lock<std::mutex> lock(getObjectsMutex());
    const auto it = getObjectsMap().find(key);
    if (it == getObjectsMap().end()) throw Pothos::NotFoundException("getObjectAtId()", std::to_string(key));
    return it->second;''')
q('c16b-q-order', RH, '''    req["action"] = Pothos::Object("compareTo");
    req["handleID"] = Pothos::Object(this->remoteID);
    req["otherID"] = Pothos::Object(handle->remoteID);''', '''    req["otherID"] = Pothos::Object(handle->remoteID);
    req["handleID"] = Pothos::Object(this->remoteID);
    req["action"] = Pothos::Object(std::string("compareTo"));''')
q('c16b-q-reqfactory', RH, 'RemoteProxyHandle::RemoteProxyHandle(std', '''static Pothos::ObjectKwargs makeRequest(const std::string &action, const size_t id)
{
    Pothos::ObjectKwargs req;
    req["action"] = Pothos::Object(action);
    req["handleID"] = Pothos::Object(id);
    return req;
}

RemoteProxyHandle::RemoteProxyHandle(std''', RH, '''    Pothos::ObjectKwargs req;
    req["action"] = Pothos::Object("hashCode");
    req["handleID"] = Pothos::Object(this->remoteID);
''', '''    const auto req = makeRequest("hashCode", this->remoteID);
''')
q('c16b-q-tidvar', RP, '    auto reqArgs = reqArgs_;\n    reqArgs["tid"] = Pothos::Object(tid);', '    Pothos::ObjectKwargs reqArgs(reqArgs_);\n    reqArgs.emplace("tid", Pothos::Object(tid));')
