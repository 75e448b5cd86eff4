// For programs that run others: processes may be refused, waiting for them is
// a point at which other threads go on, and no signal is sent.  After fz.hpp.
#pragma once
#include <yaz/poll.h>
#include <sys/wait.h>
#include <dirent.h>
#include <signal.h>
namespace cgi {
    inline int &nopipe() { static int n = 0; return n; }      // fails the nth time
    inline int &nofork() { static int n = 0; return n; }
    inline bool &slow() { static bool b = false; return b; }  // the program has time to end first
    inline bool &child() { static bool c = false; return c; }
    inline int &base() { static int n = 0; return n; }
    // a call by the program itself, not by a library (as the sanitizers')
    inline bool own(void *ret) {
        Dl_info a, b;
        return dladdr(ret, &a) && dladdr((void *) &base, &b) && a.dli_fbase == b.dli_fbase;
    }
    inline int fds() {
        int n = 0;
        DIR *d = opendir("/proc/self/fd");
        if (!d) return 0;
        while (readdir(d)) n++;
        closedir(d);
        return n;
    }
    inline void begin() { nopipe() = nofork() = 0; slow() = false; signal(SIGPIPE, SIG_IGN); base() = fds(); }
    inline void say(const char *op) { if (fz::tr.open) fz::tr.op(fz::ev(op)); }
}
extern "C" {
int pipe(int f[2]) noexcept
{
    static int (*real)(int *) = (int (*)(int *)) dlsym(RTLD_NEXT, "pipe");
    if (fz::curq && cgi::own(__builtin_return_address(0)) && cgi::nopipe() && !--cgi::nopipe()) { cgi::say("fault"); errno = EMFILE; return -1; }
    return real(f);
}
pid_t fork(void) noexcept
{
    static pid_t (*real)(void) = (pid_t (*)(void)) dlsym(RTLD_NEXT, "fork");
    if (fz::curq && cgi::nofork() && !--cgi::nofork()) { cgi::say("fault"); errno = EAGAIN; return -1; }
    cgi::say("fork");
    fflush(0);
    sched::T *me = sched::self;         // not a point to switch threads at
    sched::self = 0;
    pid_t p = real();
    if (p) sched::self = me;
    else cgi::child() = true;
    return p;
}
int kill(pid_t p, int s) noexcept { (void) p; (void) s; cgi::say("kill"); return 0; }
void exit(int c) noexcept
{
    static void (*real)(int) = (void (*)(int)) dlsym(RTLD_NEXT, "exit");
    if (!cgi::child()) real(c);
    _exit(c);
}
int yaz_poll(struct yaz_poll_fd *f, int n, int sec, int ns)
{
    static int (*real)(struct yaz_poll_fd *, int, int, int) = (int (*)(struct yaz_poll_fd *, int, int, int)) dlsym(RTLD_NEXT, "yaz_poll");
    if (cgi::slow()) { cgi::slow() = false; usleep(60000); }
    int tag = sched::managed() ? sched::self->tag : 0;
    if (fz::bk_pause) fz::bk_pause();
    if (sched::managed()) sched::self->tag = tag;
    return real(f, n, sec, ns);
}
}
