ID='C16-lost-error-waits'
PROPERTY='C16'
NEEDS='the input stream of a client breaks while a second thread waits for its reply'
BREAKS='the failing reader keeps the stream claimed, so the other callers wait for ever'
EDITS=[('lib/Remote/RemoteProxy.cpp','''            lock.lock();
            isBlocking = false;
            lock.unlock();
            isCond.notify_all();
            throw Pothos::IOException("RemoteProxyEnvironment::recvDatagram()", ex.message());''','''            isCond.notify_all();
            throw Pothos::IOException("RemoteProxyEnvironment::recvDatagram()", ex.message());''')]
FLAGS=''
DEMO=r'''
#include <Pothos/Remote.hpp>
#include <Pothos/Remote/Handler.hpp>
#include <Pothos/Proxy.hpp>
#include <Pothos/Init.hpp>
#include <atomic>
#include <condition_variable>
#include <deque>
#include <future>
#include <iostream>
#include <mutex>
#include <thread>
#include <unistd.h>
#include <cstdio>
struct Pipe : std::streambuf
{
    std::mutex m; std::condition_variable c; std::deque<char> q; bool shut = false; bool drop = false; char one;
    std::streamsize xsputn(const char *s, std::streamsize n)
    {
        std::lock_guard<std::mutex> l(m);
        if (shut) return 0;
        if (not drop) q.insert(q.end(), s, s+n);
        c.notify_all();
        return n;
    }
    int overflow(int ch) {char x = char(ch); return xsputn(&x, 1) == 1? ch : EOF;}
    std::streamsize showmanyc(void) {return 0;}
    int underflow(void)
    {
        std::unique_lock<std::mutex> l(m);
        while (q.empty() and not shut) c.wait(l);
        if (q.empty()) return EOF;
        one = q.front(); q.pop_front();
        setg(&one, &one, &one+1);
        return (unsigned char)one;
    }
    void close(void) {std::lock_guard<std::mutex> l(m); shut = true; c.notify_all();}
};
int main(void)
{
    Pothos::ScopedInit init;
    static Pipe toServer, toClient;
    static std::ostream cos(&toServer); static std::istream sis(&toServer);
    static std::ostream sos(&toClient); static std::istream cis(&toClient);
    std::thread([](void){try {Pothos::RemoteHandler h; h.runHandler(sis, sos);} catch (...) {}}).detach();
    static Pothos::ProxyEnvironment::Sptr env = Pothos::RemoteClient::makeEnvironment(cis, cos, "managed");
    {std::lock_guard<std::mutex> l(toServer.m); toServer.drop = true;} //the peer stops answering
    static std::atomic<int> done(0);
    for (int i = 0; i < 2; i++) std::thread([](void)
    {
        try {env->findProxy("Pothos/Block");} catch (...) {}
        done++;
    }).detach();
    std::this_thread::sleep_for(std::chrono::milliseconds(500));
    toClient.close(); //the connection breaks
    for (int i = 0; i < 50 and done < 2; i++) std::this_thread::sleep_for(std::chrono::milliseconds(100));
    if (done < 2) printf("a caller still waits for a reply on a broken connection\n");
    fflush(stdout);
    _exit(done < 2? 1 : 0);
}
'''
