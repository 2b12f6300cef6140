/* Contract of the transport (recv, recvfrom, send, sendto, accept, ...), written as the
 * functions themselves: they check what the code under contract hands them, and answer
 * with anything the operating system may answer.
 *
 * The peer's byte stream is: arbitrary bytes of which those of the declared length and the
 * one at the ghost position tr_k are recorded (tr_lenb, tr_byte). Everything
 * is arbitrary, so a fact proved about position tr_k holds for every position. */
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/epoll.h>
#include <unistd.h>

#define HDR 11
static uint8_t  tr_lenb[4];        /* the declared length as it is on the wire */
static uint32_t tr_k; static uint8_t tr_byte;
static uint64_t tr_pos;            /* bytes consumed from the stream */
static int      tr_fd;             /* the only descriptor the code may use */
static int      tr_alive;          /* peer keeps the connection open, nothing fails */
static int      tr_calls, tr_first_flags;
static int      tr_lost;           /* transport failed or closed at some point */
static socklen_t tr_addrlen; static uint8_t tr_abyte; /* sender address: length, byte at tr_ak */
static int64_t  tr_dgram = -2;     /* length of the datagram taken; -2 none yet */
static uint32_t tr_ak;             /* ghost position in addresses */

static uint32_t tr_len(void) { return (uint32_t)tr_lenb[0] | (uint32_t)tr_lenb[1] << 8 | (uint32_t)tr_lenb[2] << 16 | (uint32_t)tr_lenb[3] << 24; }
static void tr_any(void)
{
    for (int i = 0; i < 4; i++) tr_lenb[i] = gv_u8();
    tr_k = gv_u32(); tr_byte = gv_u8();
    if (tr_k >= 4 && tr_k < 8) tr_byte = tr_lenb[tr_k - 4];
    tr_ak = gv_u32(); tr_abyte = gv_u8(); tr_addrlen = (socklen_t)gv_range(0, 128);
    tr_fd = gv_int(); tr_alive = gv_bool();
    GV_ASSUME(tr_fd >= 0);
}
static void tr_put(uint8_t* buf, uint64_t pos, uint64_t n)
{   /* bytes pos .. pos+n-1 of the stream arrive at buf */
#ifdef GV_CBMC
    __CPROVER_assert(__CPROVER_w_ok(buf, n), "GV:received bytes stay inside the buffer");
    /* untracked bytes: the buffer's previous content, which is arbitrary */
#else
    for (uint64_t i = 0; i < n; i++) buf[i] = 0x5a;
#endif
    for (uint64_t i = 4; i < 8; i++) if (i >= pos && i - pos < n) buf[i - pos] = tr_lenb[i - 4];
    if (tr_k >= pos && tr_k - pos < n) buf[tr_k - pos] = tr_byte;
}
ssize_t recv(int fd, void* buf, size_t n, int flags)
{
    GV_ASSERT(fd == tr_fd, "received from the connection it is asked for");
    if (tr_calls == 0) tr_first_flags = flags;
    tr_calls++;
#ifdef GV_CBMC
    __CPROVER_assert(__CPROVER_w_ok(buf, n), "GV:room for what recv is asked to write");
#endif
    if (n == 0) return 0;
    int whole = ((flags & MSG_WAITALL) && !(flags & MSG_DONTWAIT)) || tr_calls > 3;
    if (!tr_alive && gv_bool()) {
        tr_lost = 1;
        if (gv_bool()) return 0;
        errno = gv_int(); GV_ASSUME(errno > 0 && errno != EFAULT);
        return -1;
    }
    if ((flags & MSG_DONTWAIT) && tr_calls == 1 && gv_bool()) { errno = EAGAIN; return -1; }
    uint64_t k = gv_range(1, n);
    if (whole && (tr_alive || gv_bool())) k = n;
    if (whole && k != n) tr_lost = 1; /* closed or interrupted in the middle */
    tr_put(buf, tr_pos, k);
    tr_pos += k;
    return (ssize_t)k;
}
static void tr_putaddr(uint8_t* addr, socklen_t room)
{
#ifndef GV_CBMC
    for (socklen_t i = 0; i < room && i < tr_addrlen; i++) addr[i] = 0x5a;
#endif
    if (tr_ak < room && tr_ak < tr_addrlen) addr[tr_ak] = tr_abyte;
}
ssize_t recvfrom(int fd, void* buf, size_t n, int flags, struct sockaddr* addr, socklen_t* alen)
{
    GV_ASSERT(fd == tr_fd, "received from the link's own socket");
    if (tr_calls == 0) tr_first_flags = flags;
    tr_calls++;
#ifdef GV_CBMC
    __CPROVER_assert(__CPROVER_w_ok(buf, n), "GV:room for what recvfrom is asked to write");
    __CPROVER_assert(__CPROVER_w_ok(addr, *alen), "GV:room for the sender's address");
#endif
    if (gv_bool()) { errno = gv_int(); GV_ASSUME(errno > 0 && errno != EPIPE); return -1; }
    /* one datagram of any length; what does not fit is lost */
    uint64_t k = gv_range(0, n);
    tr_dgram = (int64_t)k;
    tr_put(buf, 0, k);
    tr_putaddr((uint8_t*)addr, *alen);
    *alen = tr_addrlen;
    return (ssize_t)k;
}
/* sends: recorded, any answer */
static int tr_sends; static const void* tr_send_data; static uint64_t tr_send_n; static int tr_send_fd, tr_send_flags;
static const void* tr_send_addr; static socklen_t tr_send_alen; static uint8_t tr_send_abyte; static int64_t tr_send_ret;
static ssize_t tr_sent(int fd, const void* d, size_t n, int flags, const void* a, socklen_t al)
{
    tr_sends++; tr_send_fd = fd; tr_send_data = d; tr_send_n = n; tr_send_flags = flags; tr_send_addr = a; tr_send_alen = al;
#ifdef GV_CBMC
    __CPROVER_assert(__CPROVER_r_ok(d, n), "GV:bytes to send are readable");
    if (a) __CPROVER_assert(__CPROVER_r_ok(a, al), "GV:address is readable");
#else
    volatile uint8_t s = 0; for (size_t i = 0; i < n; i++) s += ((const uint8_t*)d)[i];
#endif
    if (a && tr_ak < al) tr_send_abyte = ((const uint8_t*)a)[tr_ak];
    if (gv_bool()) { errno = gv_int(); GV_ASSUME(errno > 0); tr_send_ret = -1; return -1; }
    tr_send_ret = (int64_t)gv_range(0, n);
    return (ssize_t)tr_send_ret;
}
ssize_t send(int fd, const void* d, size_t n, int flags) { return tr_sent(fd, d, n, flags, NULL, 0); }
ssize_t sendto(int fd, const void* d, size_t n, int flags, const struct sockaddr* a, socklen_t al) { return tr_sent(fd, d, n, flags, a, al); }

static int tr_closes, tr_closed_fd, tr_adds, tr_dels, tr_aio_fd, tr_aio_set;
static int gv_close(int fd) { tr_closes++; tr_closed_fd = fd; return gv_bool() ? -1 : 0; }
int epoll_ctl(int set, int op, int fd, struct epoll_event* ev)
{
    tr_aio_set = set; tr_aio_fd = fd;
    if (op == EPOLL_CTL_ADD) tr_adds++; else tr_dels++;
    return gv_bool() ? -1 : 0;
}
int accept(int fd, struct sockaddr* addr, socklen_t* alen)
{
    GV_ASSERT(fd == tr_fd, "accepts on the link's own socket");
    if (gv_bool()) { errno = EMFILE; return -1; }
    tr_putaddr((uint8_t*)addr, *alen);
    *alen = tr_addrlen;
    int r = gv_int(); GV_ASSUME(r >= 0);
    return r;
}
