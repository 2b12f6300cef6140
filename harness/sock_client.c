/* Contracts on runtime/link/socket/client.c, through its operation table. */
#include "gv.h"
#include "transport.h"
#include "gracht/link/socket.h"
#define union struct /* client and server operations side by side: lets the verifier resolve the calls */
#include "utils.h"
#undef union
#define close(fd) gv_close(fd)
#define malloc gv_malloc
#define free gv_free
static int g_connect_fd, g_connects, g_sock, g_sock_type;
int socket(int d, int type, int p) { g_sock_type = type; g_sock = gv_int(); GV_ASSUME(g_sock >= -1); return g_sock; }
int connect(int fd, const struct sockaddr* a, socklen_t n) { g_connects++; g_connect_fd = fd; return gv_bool() ? -1 : 0; }
#include "runtime/link/socket/client.c"
#undef malloc
#undef free
#ifndef GV_MAXCAP
#define GV_MAXCAP (1u << 28)
#endif
static struct gracht_link_socket L;
static struct gracht_buffer B; static char* g_data; static uint32_t g_cap;
#define OPS L.base.ops.client

static void any_link(enum gracht_link_type type)
{
    gracht_link_client_socket_api(&L);
    L.base.type = type;
    L.base.connection = tr_fd;
    L.address_length = (socklen_t)gv_range(2, 128);
}
static void any_buffer(uint32_t min)
{
    g_cap = (uint32_t)gv_range(min, GV_MAXCAP);
    g_data = (malloc)(g_cap ? g_cap : 1);
    GV_ASSUME(g_data != NULL);
#ifndef GV_CBMC
    memset(g_data, 0, g_cap);
#endif
    B.data = g_data; B.index = g_cap;
}
void h_recv_stream(void)
{
    tr_any(); any_link(gracht_link_stream_based); any_buffer(HDR);
    unsigned flags = gv_u32() & (GRACHT_MESSAGE_BLOCK | GRACHT_MESSAGE_WAITALL);
    uint32_t D = tr_len();
    int r = OPS.recv(&L.base, &B, flags);
    GV_ASSERT(r == 0 || r == -1, "status");
    GV_ASSERT((flags & GRACHT_MESSAGE_BLOCK) || (tr_first_flags & MSG_DONTWAIT), "does not block when not asked to");
    GV_ASSERT(!(flags & GRACHT_MESSAGE_BLOCK) || !(tr_first_flags & MSG_DONTWAIT), "blocks when asked to");
    GV_ASSERT(B.data == g_data, "same buffer");
    if (r == 0) {
        GV_ASSERT(D >= HDR && D <= g_cap, "only lengths that are possible and fit");
        GV_ASSERT(tr_pos == D, "consumed exactly this message");
        GV_ASSERT(B.index == 0, "read position at the header");
        if (tr_k < D) GV_ASSERT((uint8_t)B.data[tr_k] == tr_byte, "every byte as sent");
    } else {
        GV_ASSERT(!(tr_pos > 0 && tr_alive && D >= HDR && D <= g_cap), "a message that arrives in pieces is delivered");
    }
    GV_COVER(r == 0 && D == HDR, "empty message"); GV_COVER(r == 0 && tr_calls > 2, "header in pieces");
    GV_COVER(r == 0 && D == g_cap, "largest message"); GV_COVER(r != 0 && tr_pos > 0, "failure");
}
void h_recv_packet(void)
{
    tr_any(); any_link(gracht_link_packet_based); any_buffer(0);
    unsigned flags = gv_u32() & (GRACHT_MESSAGE_BLOCK | GRACHT_MESSAGE_WAITALL);
    uint32_t D = tr_len();
    int r = OPS.recv(&L.base, &B, flags);
    GV_ASSERT(r == 0 || r == -1, "status");
    GV_ASSERT(tr_calls == 0 || (flags & GRACHT_MESSAGE_BLOCK) || (tr_first_flags & MSG_DONTWAIT), "does not block when not asked to");
    GV_ASSERT(B.data == g_data, "same buffer");
    if (r == 0) {
        GV_ASSERT(tr_dgram >= HDR && D >= HDR && D <= tr_dgram, "one whole message");
        GV_ASSERT(B.index <= g_cap && g_cap - B.index >= (uint64_t)tr_dgram, "inside the buffer");
        if (tr_k < tr_dgram) GV_ASSERT((uint8_t)B.data[B.index + tr_k] == tr_byte, "every byte as sent, header at the read position");
    } else {
        GV_ASSERT(!(tr_dgram >= HDR && D >= HDR && D <= tr_dgram), "a datagram with a whole message is delivered");
    }
    GV_COVER(r == 0 && tr_addrlen < L.address_length, "short address"); GV_COVER(r == 0 && tr_addrlen > L.address_length, "long address");
    GV_COVER(r != 0 && tr_dgram > 0, "dropped");
}
void h_send(void)
{
    tr_any(); any_link(gv_bool() ? gracht_link_stream_based : gracht_link_packet_based); any_buffer(0);
    int r = OPS.send(&L.base, &B, NULL);
    GV_ASSERT(r == 0 || r == -1, "status");
    GV_ASSERT(tr_sends == 1, "handed to the transport exactly once");
    GV_ASSERT(tr_send_data == g_data && tr_send_n == g_cap && tr_send_fd == tr_fd, "exactly the message's bytes on the connection");
    GV_ASSERT((r == 0) == (tr_send_ret == (int64_t)g_cap), "success exactly if everything was taken");
    GV_ASSERT(B.data == g_data && B.index == g_cap, "message unchanged");
    GV_COVER(r == 0, "sent"); GV_COVER(r != 0 && tr_send_ret >= 0, "short send"); GV_COVER(r != 0 && tr_send_ret < 0, "failed send");
}
void h_connect(void)
{
    tr_any(); any_link(gv_bool() ? gracht_link_stream_based : gracht_link_packet_based);
    int r = OPS.connect(&L.base);
    GV_ASSERT(r < 0 || (g_connects == 1 && g_connect_fd == g_sock && r == g_sock && L.base.connection == g_sock && tr_closes == 0), "connected socket");
    GV_ASSERT(r >= 0 || g_sock < 0 || (tr_closes == 1 && tr_closed_fd == g_sock && L.base.connection == GRACHT_CONN_INVALID), "a socket that failed to connect is closed once");
    GV_ASSERT(g_sock_type == (L.base.type == gracht_link_stream_based ? SOCK_STREAM : SOCK_DGRAM), "socket type");
    GV_COVER(r >= 0, "connected"); GV_COVER(r < 0 && g_sock >= 0, "refused");
}
