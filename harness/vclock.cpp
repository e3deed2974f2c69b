// Linked into the monitored server; everything here is controlled by the check through a shared file:
//  * its clock is the host clock plus an offset, so time can be moved without waiting;
//  * socket calls of the server may be cut short or told to try again, as a busy host does.
#include <chrono>
#include <cstdint>
#include <cstdlib>
#include <cerrno>
#include <fcntl.h>
#include <sys/epoll.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
// [0] clock offset, ns  [1] faults per 1000 calls  [2] seed  [3..6] injected: send again, send short, recv again, recv short  [7] calls
static volatile int64_t * shared() {
    static volatile int64_t * p = []() -> volatile int64_t * {
        static int64_t zero[16];
        const char * f = getenv("VCLOCK_FILE");
        if (!f) return zero;
        int fd = open(f, O_RDWR);
        if (fd < 0) return zero;
        void * m = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
        return m == MAP_FAILED ? zero : static_cast<int64_t *>(m);
    }();
    return p;
}
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept {
    timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
    return time_point(duration(int64_t(t.tv_sec) * 1000000000ll + t.tv_nsec + shared()[0]));
}
}}}

namespace {
const int max_fd = 65536;
struct watch { int epfd; epoll_event ev; bool set; };
watch watched[max_fd];

uint64_t rnd() {
    static uint64_t s = 0;
    if (!s) s = uint64_t(shared()[2]) * 0x9E3779B97F4A7C15ull + 0x1234567ull;
    s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s;
}
bool fault() {
    shared()[7] = shared()[7] + 1;
    const int64_t pm = shared()[1];
    return pm > 0 && int64_t(rnd() % 1000) < pm;
}
// the socket is ready all the same: tell so again, since the notification is edge-triggered
void rearm(int fd) {
    if (fd >= 0 && fd < max_fd && watched[fd].set) {
        const int e = errno;
        syscall(SYS_epoll_ctl, watched[fd].epfd, EPOLL_CTL_MOD, fd, &watched[fd].ev);
        errno = e;
    }
}
bool again(int fd, int which) { shared()[which] = shared()[which] + 1; rearm(fd); errno = EAGAIN; return true; }
bool is_stream(int fd) { int t = 0; socklen_t l = sizeof(t); return getsockopt(fd, SOL_SOCKET, SO_TYPE, &t, &l) == 0 && t == SOCK_STREAM; }
}

extern "C" {
__attribute__((weak)) ssize_t __interceptor_recv(int, void *, size_t, int);
__attribute__((weak)) ssize_t __interceptor_send(int, const void *, size_t, int);
__attribute__((weak)) ssize_t __interceptor_recvfrom(int, void *, size_t, int, sockaddr *, socklen_t *);
__attribute__((weak)) ssize_t __interceptor_sendto(int, const void *, size_t, int, const sockaddr *, socklen_t);
__attribute__((weak)) ssize_t __interceptor_sendmsg(int, const msghdr *, int);
__attribute__((weak)) ssize_t __interceptor_recvmsg(int, msghdr *, int);

int epoll_ctl(int epfd, int op, int fd, epoll_event * ev) noexcept {
    if (fd >= 0 && fd < max_fd) {
        if (op == EPOLL_CTL_DEL || !ev) watched[fd].set = false;
        else { watched[fd].epfd = epfd; watched[fd].ev = *ev; watched[fd].set = true; }
    }
    return int(syscall(SYS_epoll_ctl, epfd, op, fd, ev));
}

ssize_t send(int fd, const void * p, size_t n, int fl) {
    if (n > 0 && fault()) {
        if (n == 1 || rnd() % 2) { again(fd, 3); return -1; }
        n = 1 + rnd() % (n - 1); shared()[4] = shared()[4] + 1; rearm(fd);
    }
    ssize_t r = __interceptor_send ? __interceptor_send(fd, p, n, fl) : syscall(SYS_sendto, fd, p, n, fl, nullptr, 0);
    return r;
}
ssize_t sendto(int fd, const void * p, size_t n, int fl, const sockaddr * a, socklen_t l) {
    if (fault()) { again(fd, 3); return -1; }
    return __interceptor_sendto ? __interceptor_sendto(fd, p, n, fl, a, l) : syscall(SYS_sendto, fd, p, n, fl, a, l);
}
ssize_t sendmsg(int fd, const msghdr * m, int fl) {
    if (fault()) { again(fd, 3); return -1; }
    return __interceptor_sendmsg ? __interceptor_sendmsg(fd, m, fl) : syscall(SYS_sendmsg, fd, m, fl);
}
ssize_t recv(int fd, void * p, size_t n, int fl) {
    if (n > 0 && fault()) {
        if (n == 1 || rnd() % 2) { again(fd, 5); return -1; }
        if (is_stream(fd)) { n = 1 + rnd() % (rnd() % 2 ? n : (n < 16 ? n : 16)); shared()[6] = shared()[6] + 1; rearm(fd); }
    }
    ssize_t r = __interceptor_recv ? __interceptor_recv(fd, p, n, fl) : syscall(SYS_recvfrom, fd, p, n, fl, nullptr, nullptr);
    return r;
}
ssize_t recvfrom(int fd, void * p, size_t n, int fl, sockaddr * a, socklen_t * l) {
    if (fault()) { again(fd, 5); return -1; }
    return __interceptor_recvfrom ? __interceptor_recvfrom(fd, p, n, fl, a, l) : syscall(SYS_recvfrom, fd, p, n, fl, a, l);
}
ssize_t recvmsg(int fd, msghdr * m, int fl) {
    if (fault()) { again(fd, 5); return -1; }
    return __interceptor_recvmsg ? __interceptor_recvmsg(fd, m, fl) : syscall(SYS_recvmsg, fd, m, fl);
}
}
