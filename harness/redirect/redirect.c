/* Preloaded into the programs under test: traffic to port 53 of any address goes to the address in
 * ARIADNE_UPSTREAM ("ip:port") instead, each datagram (TCP: the first data) preceded by the four bytes of the address
 * it was meant for.
 * Nothing else may leave the loopback interface. */
#define _GNU_SOURCE
#include <arpa/inet.h>
#include <dlfcn.h>
#include <errno.h>
#include <netinet/in.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 4096
static volatile uint32_t dest[MAXFD]; /* 0: not redirected */
static volatile char fresh[MAXFD];    /* stream without data so far */

static int upstream(struct sockaddr_in *a) {
    const char *e = getenv("ARIADNE_UPSTREAM");
    char b[64];
    if (!e || strlen(e) >= sizeof b) return 0;
    strcpy(b, e);
    char *c = strchr(b, ':');
    if (!c) return 0;
    *c = 0;
    memset(a, 0, sizeof *a);
    a->sin_family = AF_INET;
    a->sin_port = htons(atoi(c + 1));
    return inet_aton(b, &a->sin_addr);
}

static int is_v4(const struct sockaddr *a) { return a && a->sa_family == AF_INET; }
static uint16_t port(const struct sockaddr *a) { return ntohs(((const struct sockaddr_in *)a)->sin_port); }
static uint32_t ip(const struct sockaddr *a) { return ((const struct sockaddr_in *)a)->sin_addr.s_addr; }
static int is(int fd, int type) {
    int t = 0;
    socklen_t l = sizeof t;
    return getsockopt(fd, SOL_SOCKET, SO_TYPE, &t, &l) == 0 && t == type;
}
static int udp(int fd) { return is(fd, SOCK_DGRAM); }
static int mapped(int fd) { return fd >= 0 && fd < MAXFD && dest[fd] != 0; }

int connect(int fd, const struct sockaddr *a, socklen_t l) {
    struct sockaddr_in u;
    if (is_v4(a) && port(a) == 53 && fd < MAXFD && upstream(&u)) {
        if (!mapped(fd)) fresh[fd] = is(fd, SOCK_STREAM);
        dest[fd] = ip(a);
        return syscall(SYS_connect, fd, &u, sizeof u);
    }
    if (is_v4(a) && (ntohl(ip(a)) >> 24) != 127 && ip(a) != 0) {
        errno = ENETUNREACH;
        return -1;
    }
    return syscall(SYS_connect, fd, a, l);
}

static ssize_t prefixed(int fd, const void *b, size_t n, int flags, struct sockaddr_in *to) {
    uint32_t d = dest[fd];
    int skip = !udp(fd) && !fresh[fd];
    struct iovec v[2] = {{&d, 4}, {(void *)b, n}};
    struct msghdr m;
    memset(&m, 0, sizeof m);
    m.msg_iov = v + skip;
    m.msg_iovlen = 2 - skip;
    fresh[fd] = 0;
    if (to) {
        m.msg_name = to;
        m.msg_namelen = sizeof *to;
    }
    ssize_t r = syscall(SYS_sendmsg, fd, &m, flags);
    return r < 0 ? r : (ssize_t)n;
}

ssize_t send(int fd, const void *b, size_t n, int flags) {
    if (mapped(fd)) return prefixed(fd, b, n, flags, 0);
    return syscall(SYS_sendto, fd, b, n, flags, 0, 0);
}

ssize_t sendto(int fd, const void *b, size_t n, int flags, const struct sockaddr *a, socklen_t l) {
    struct sockaddr_in u;
    if (is_v4(a) && port(a) == 53 && udp(fd) && fd < MAXFD && upstream(&u)) {
        dest[fd] = ip(a);
        return prefixed(fd, b, n, flags, &u);
    }
    if (!a && mapped(fd)) return prefixed(fd, b, n, flags, 0);
    if (is_v4(a) && (ntohl(ip(a)) >> 24) != 127 && ip(a) != 0) {
        errno = ENETUNREACH;
        return -1;
    }
    return syscall(SYS_sendto, fd, b, n, flags, a, l);
}

ssize_t recvfrom(int fd, void *b, size_t n, int flags, struct sockaddr *a, socklen_t *l) {
    ssize_t r = syscall(SYS_recvfrom, fd, b, n, flags, a, l);
    if (r >= 0 && mapped(fd) && is_v4(a) && l && *l >= sizeof(struct sockaddr_in)) {
        ((struct sockaddr_in *)a)->sin_addr.s_addr = dest[fd];
        ((struct sockaddr_in *)a)->sin_port = htons(53);
    }
    return r;
}

ssize_t write(int fd, const void *b, size_t n) {
    if (mapped(fd)) return prefixed(fd, b, n, 0, 0);
    return syscall(SYS_write, fd, b, n);
}

ssize_t writev(int fd, const struct iovec *v, int n) {
    /* (A short write is as good.) */
    if (mapped(fd) && n > 0) return prefixed(fd, v[0].iov_base, v[0].iov_len, 0, 0);
    return syscall(SYS_writev, fd, v, n);
}

int close(int fd) {
    if (fd >= 0 && fd < MAXFD) dest[fd] = 0;
    return syscall(SYS_close, fd);
}
