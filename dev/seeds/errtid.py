ID='C16-error-without-tid'
PROPERTY='C16'
NEEDS='a remote request that fails on the server'
BREAKS='the error reply is built afresh and lacks the thread id of its request, so the caller cannot match it: the connection is treated as broken instead of reporting the error'
EDITS=[('lib/Remote/ServerHandler.cpp','''        replyArgs["errorMsg"] = Pothos::Object(ex.displayText());
    }

    //serialize''','''        //drop partial results
        replyArgs.clear();
        replyArgs["errorMsg"] = Pothos::Object(ex.displayText());
    }

    //serialize''')]
DEMO=r'''
#include <Pothos/Remote.hpp>
#include <Pothos/Proxy.hpp>
#include <Pothos/Managed.hpp>
#include <Pothos/Init.hpp>
#include <thread>
#include <atomic>
#include <chrono>
#include <iostream>
#include <cstdio>
#include <unistd.h>
#include <sys/socket.h>
struct FdBuf : std::streambuf
{
    int fd; char c;
    FdBuf(int fd):fd(fd){}
    int underflow(void){if (::read(fd, &c, 1) != 1) return EOF; setg(&c, &c, &c+1); return (unsigned char)c;}
    int overflow(int ch){char x = char(ch); return ::write(fd, &x, 1) == 1? ch : EOF;}
    std::streamsize xsputn(const char *s, std::streamsize n){std::streamsize d = 0; while (d < n){ssize_t r = ::write(fd, s+d, n-d); if (r <= 0) break; d += r;} return d;}
};
struct Slow
{
    static int nap(const int ms){std::this_thread::sleep_for(std::chrono::milliseconds(ms)); return ms;}
};
static auto reg = Pothos::ManagedClass().registerClass<Slow>().registerStaticMethod("nap", &Slow::nap).commit("DemoSlow");
int main(void)
{
    Pothos::init();
    int s[2];
    if (::socketpair(AF_UNIX, SOCK_STREAM, 0, s) != 0) return 3;
    std::thread server([&]{FdBuf b(s[0]); std::istream is(&b); std::ostream os(&b); Pothos::RemoteHandler h; try{h.runHandler(is, os);}catch(...){} });
    server.detach();
    FdBuf b(s[1]); std::istream is(&b); std::ostream os(&b);
    auto env = Pothos::RemoteClient::makeEnvironment(is, os, "managed");
    auto cls = env->findProxy("DemoSlow");
    for (int k = 0; k < 3; k++)
    {
        try {cls.call("noSuchMethod", k); printf("no error\n"); fflush(stdout); _Exit(1);}
        catch (const Pothos::IOException &ex) {printf("connection failed instead of an error reply: %s\n", ex.displayText().c_str()); fflush(stdout); _Exit(1);}
        catch (const Pothos::Exception &ex) {printf("%s\n", ex.displayText().c_str());}
        int r = cls.call("nap", 5);
        if (r != 5) _Exit(2);
    }
    puts("ok"); fflush(stdout);
    _Exit(0);
}
'''
