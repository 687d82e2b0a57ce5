def m(n, *a, **k):
    MUTANTS.append((n, k.get('p','C08'), [tuple(a[i:i+3]) for i in range(0, len(a), 3)], k.get("e", C)))
q=lambda *a,**k: m(*a, e=Q, **k)
WA='lib/Framework/WorkerActor.cpp'; RG='lib/Plugin/Registry.cpp'; ST='lib/Plugin/Static.cpp'; LD='lib/Plugin/Loader.in.cpp'; TE='lib/Framework/ThreadEnvironment.cpp'
PRE='''    POTHOS_EXCEPTION_TRY
    {
        if (not block->prepare()) return;
    }
    POTHOS_EXCEPTION_CATCH(const Exception &ex)
    {
        poco_error_f2(Poco::Logger::get("Pothos.Block.prepare"), "%s: %s", block->getName(), ex.displayText());
        return;
    }
'''
m('c08b-prepare-std', WA, PRE, PRE.replace('POTHOS_EXCEPTION_TRY','try').replace('POTHOS_EXCEPTION_CATCH(const Exception','catch(const std::exception').replace('displayText()','what()').replace('ex.what()','std::string(ex.what())'))
m('c08b-prepare-rethrow', WA, PRE, PRE.replace('        return;\n    }\n','        if (not this->activeState) throw;\n        return;\n    }\n'))
m('c08b-handler-cond', RG, '''    POTHOS_EXCEPTION_TRY
    {
        handler.extract<Pothos::Callable>().call(plugin, event);
    }''', '''    if (event == "remove") return (void)handler.extract<Pothos::Callable>().call(plugin, event);
    POTHOS_EXCEPTION_TRY
    {
        handler.extract<Pothos::Callable>().call(plugin, event);
    }''')
m('c08b-handler-pothos', RG, '''    POTHOS_EXCEPTION_TRY
    {
        handler.extract<Pothos::Callable>().call(plugin, event);
    }
    POTHOS_EXCEPTION_CATCH(const Pothos::Exception &ex)''', '''    try
    {
        handler.extract<Pothos::Callable>().call(plugin, event);
    }
    catch(const Pothos::Exception &ex)''')
m('c08b-handler-rethrow', RG, '''        "exception %s, plugin %s, event %s", ex.displayText(), plugin.toString(), event);
    }''', '''        "exception %s, plugin %s, event %s", ex.displayText(), plugin.toString(), event);
        if (event == "add") throw ex;
    }''')
q('c08b-q-try', WA, PRE, '''    try
    {
        if (not block->prepare()) return;
    }
    catch (const Exception &ex)
    {
        poco_error_f2(Poco::Logger::get("Pothos.Block.prepare"), "%s: %s", block->getName(), ex.displayText());
        return;
    }
    catch (const std::exception &ex)
    {
        poco_error_f2(Poco::Logger::get("Pothos.Block.prepare"), "%s: %s", block->getName(), std::string(ex.what()));
        return;
    }
    catch (...)
    {
        poco_error_f1(Poco::Logger::get("Pothos.Block.prepare"), "%s: unknown", block->getName());
        return;
    }
''')
q('c08b-q-flag', WA, PRE, PRE.replace('    POTHOS_EXCEPTION_TRY','    bool ready = false;\n    POTHOS_EXCEPTION_TRY',1).replace('if (not block->prepare()) return;','ready = block->prepare();').replace('        return;\n    }\n','    }\n    if (not ready) return;\n'))
q('c08b-q-helper', WA, PRE, '    if (not callContained(block->getName(), [this](void){return this->block->prepare();})) return;\n', WA, '''void Pothos::WorkerActor::workTask(void)
''', '''template <typename Fcn>
static bool callContained(const std::string &name, const Fcn &fcn)
{
    POTHOS_EXCEPTION_TRY
    {
        return fcn();
    }
    POTHOS_EXCEPTION_CATCH(const Pothos::Exception &ex)
    {
        poco_error_f2(Poco::Logger::get("Pothos.Block.prepare"), "%s: %s", name, ex.displayText());
    }
    return false;
}

void Pothos::WorkerActor::workTask(void)
''')
q('c08b-q-outer', RG, '''    if (not canObjectHandleEvent(handler)) return;
    POTHOS_EXCEPTION_TRY
    {
        handler''', '''    POTHOS_EXCEPTION_TRY
    {
        if (not canObjectHandleEvent(handler)) return;
        handler''')
q('c08b-q-call', RG, '''        handler.extract<Pothos::Callable>().call(plugin, event);
    }
    POTHOS''', '''        const auto &call = handler.extract<Pothos::Callable>();
        call.call(plugin, event);
    }
    POTHOS''')
q('c08b-q-range', RG, '''    for (size_t i = 0; i < parentPlugins.size(); i++)
    {
        callPluginEventHandler(parentPlugins[i].getObject(), plugin, event);
    }''', '''    for (const auto &parent : parentPlugins)
    {
        callPluginEventHandler(parent.getObject(), plugin, event);
    }''')
# activation
m('c27-activate-keep', WA, '        this->activeState = false;\n        throw ex;', '        throw ex;', p='C27')
m('c27-q-order', WA, '        this->activeState = true;\n        this->block->activate();', '        this->block->activate();\n        this->activeState = true;', e=Q, p='C27')
m('c27-work-late', WA, "    if (not activeState) return;\n" + PRE, PRE + "    if (not activeState) return;\n", p='C27')
m('c27-off-untested', WA, "    //not activated? just return\n    if (not this->activeState) return;\n", "", p='C27')
m('c27-off-late', WA, "    this->activeState = false;\n    this->block->deactivate();", "    this->block->deactivate();\n    this->activeState = false;", p='C27')
m('c27-on-cond', WA, "        this->activeState = true;\n        this->block->activate();", "        this->block->activate();\n        if (not this->outputs.empty()) this->activeState = true;", p='C27')
q('c27-q-off', WA, "    if (not this->activeState) return;\n\n    this->activeState = false;\n    this->block->deactivate();\n    this->activityIndicator.fetch_add(1, std::memory_order_relaxed);\n", "    if (this->activeState)\n    {\n        this->activeState = false;\n        this->block->deactivate();\n        this->activityIndicator.fetch_add(1, std::memory_order_relaxed);\n    }\n", p='C27')
q('c27-q-local', WA, "    if (not activeState) return;\n    POTHOS", "    const bool active = this->activeState;\n    if (not active) return;\n    POTHOS", p='C27')
q('c27-q-acq', 'lib/Framework/WorkerActor.hpp', "            this->workTask();\n            this->workerThreadRelease();", "            if (this->activeState) this->workTask();\n            this->workerThreadRelease();", WA, "    if (not activeState) return;\n    POTHOS", "    POTHOS", p='C27')
