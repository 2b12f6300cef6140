/* Contracts on runtime/link/socket/server.c, through its operation table. */
#include "gv.h"
#include "transport.h"
#include "gracht/link/socket.h"
#define union struct /* client and server operations side by side: lets the verifier resolve the calls */
#include "utils.h"
#undef union
#include "crc.h"
static uint32_t gv_crc(const unsigned char* p, size_t n);
#define crc32_generate gv_crc
#define close(fd) gv_close(fd)
#define malloc gv_malloc
#define free gv_free
#include "runtime/link/socket/server.c"
#undef malloc
#undef free

static struct gracht_link_socket L;
static struct gracht_message* M; static uint32_t g_cap;
#define OPS L.base.ops.server
#ifndef GV_MAXCAP
#define GV_MAXCAP (1u << 28)
#endif

static void any_link(enum gracht_link_type type)
{
    gracht_link_server_socket_api(&L);
    L.base.type = type;
    L.base.connection = tr_fd;
    L.address_length = (socklen_t)gv_range(2, 128);
    L.domain = AF_INET;
}
/* a receive buffer exactly as the server hands it out: capacity in index */
static void any_buffer(void)
{
    g_cap = (uint32_t)gv_range(480, GV_MAXCAP);
    M = (malloc)(sizeof(struct gracht_message) + g_cap);
    GV_ASSUME(M != NULL);
    M->server = NULL; M->index = g_cap; M->size = gv_u32(); M->link = gv_int(); M->client = gv_int();
}
static struct gracht_server_client* connected_client(int* ok)
{
    struct gracht_server_client* c = NULL;
    int r = OPS.accept_client(&L.base, 7, &c);
    *ok = r == 0;
    if (r == 0) { GV_ASSERT(c != NULL && gv_live_blocks == 1, "client object"); }
    else GV_ASSERT(gv_live_blocks == 0, "failed accept keeps nothing");
    return c;
}

void h_recv_client(void)
{
    int ok;
    tr_any(); any_link(gracht_link_stream_based); any_buffer();
    struct gracht_server_client* c = connected_client(&ok);
    if (!ok) return;
    int lfd = tr_fd; tr_fd = c->handle;
    unsigned flags = gv_u32() & (GRACHT_MESSAGE_BLOCK | GRACHT_MESSAGE_WAITALL);
    uint32_t D = tr_len();
    int r = OPS.recv_client(c, M, flags);
    GV_ASSERT(r == 0 || r == -1, "status");
    GV_ASSERT((flags & GRACHT_MESSAGE_BLOCK) || (tr_first_flags & MSG_DONTWAIT), "does not block when nothing has arrived");
    if (r == 0) {
        GV_ASSERT(D >= HDR && D <= g_cap, "only lengths that are possible and fit");
        GV_ASSERT(tr_pos == D, "consumed exactly this message");
        GV_ASSERT(M->index == 0 && M->size == D, "position and size of the message");
        GV_ASSERT(M->client == c->handle && M->link == lfd, "originating client and link");
        if (tr_k < D) GV_ASSERT(M->payload[tr_k] == tr_byte, "every byte as sent");
    } else {
        GV_ASSERT(tr_pos == 0 || errno == EFAULT, "bytes consumed without a message: the connection is given up");
        GV_ASSERT(!(tr_pos > 0 && tr_alive && D >= HDR && D <= g_cap), "a message that arrives in pieces is delivered");
    }
    GV_COVER(r == 0 && D == HDR, "empty message"); GV_COVER(r == 0 && tr_calls > 2, "header in pieces");
    GV_COVER(r == 0 && D == g_cap, "largest message"); GV_COVER(r != 0 && tr_pos > 0, "given up"); GV_COVER(r != 0 && tr_pos == 0 && tr_alive, "nothing yet");
}
void h_recv_packet(void)
{
    tr_any(); any_link(gracht_link_packet_based); any_buffer();
    if (gv_bool()) L.base.type = gracht_link_stream_based;
    unsigned flags = gv_u32() & (GRACHT_MESSAGE_BLOCK | GRACHT_MESSAGE_WAITALL);
    uint32_t D = tr_len();
    int r = OPS.recv(&L.base, M, flags);
    GV_ASSERT(r == 0 || r == -1, "status");
    if (L.base.type != gracht_link_packet_based) { GV_ASSERT(r == -1 && tr_calls == 0, "stream links have no datagrams"); return; }
    GV_ASSERT((flags & GRACHT_MESSAGE_BLOCK) || (tr_first_flags & MSG_DONTWAIT), "does not block when nothing has arrived");
    if (r == 0) {
        GV_ASSERT(tr_dgram >= HDR, "at least a complete header");
        GV_ASSERT(D >= HDR && D <= tr_dgram, "the whole message is there");
        GV_ASSERT(M->link == tr_fd, "originating link");
        GV_ASSERT(M->index <= g_cap && M->size <= g_cap && M->size == M->index + (uint32_t)tr_dgram, "position and size of the message");
        if (tr_k < tr_dgram) GV_ASSERT(M->payload[M->index + tr_k] == tr_byte, "every byte where the dispatcher reads it");
        if (tr_ak < tr_addrlen && tr_ak < L.address_length) GV_ASSERT(M->payload[tr_ak] == tr_abyte, "sender address kept in front");
    } else {
        GV_ASSERT(!(tr_dgram >= HDR && D >= HDR && D <= tr_dgram), "a datagram with a whole message is delivered");
    }
    GV_COVER(r == 0 && tr_addrlen < L.address_length, "short address"); GV_COVER(r == 0 && tr_addrlen > L.address_length, "long address");
    GV_COVER(r == 0 && D == tr_dgram, "exact"); GV_COVER(r != 0 && tr_dgram > 0, "dropped");
}
/* identity of the sender: contract of crc32_generate (proved under C17) as a function of
 * exactly the zero-padded sender address, and of nothing else */
static const unsigned char* g_crc_p; static size_t g_crc_n; static uint32_t g_crc; static int g_crc_calls; static uint8_t g_crc_byte;
static uint32_t gv_crc(const unsigned char* p, size_t n)
{
#ifdef GV_CBMC
    __CPROVER_assert(__CPROVER_r_ok(p, n), "GV:checksum stays inside the buffer");
#else
    volatile uint8_t s = 0; for (size_t i = 0; i < n; i++) s += p[i];
#endif
    g_crc_calls++; g_crc_p = p; g_crc_n = n; g_crc_byte = tr_ak < n ? p[tr_ak] : 0;
    g_crc = gv_u32();
    return g_crc;
}
void h_identity(void)
{
    tr_any(); any_link(gracht_link_packet_based); any_buffer();
    GV_ASSUME(tr_addrlen <= L.address_length); /* what the family of the link can produce */
    int r = OPS.recv(&L.base, M, 0);
    if (r == 0) {
        GV_ASSERT(g_crc_calls == 1 && M->client == (int)g_crc, "identity is the checksum");
        GV_ASSERT(g_crc_n >= tr_addrlen && g_crc_n <= 128, "of the whole address");
        if (tr_ak < g_crc_n) GV_ASSERT(g_crc_byte == (tr_ak < tr_addrlen ? tr_abyte : 0), "and of nothing else");
        GV_REACH("identity");
    }
}
static struct gracht_buffer B; static char* g_data;
static void any_message(void)
{
    B.index = (uint32_t)gv_range(0, GV_MAXCAP);
    g_data = (malloc)(B.index + 1); GV_ASSUME(g_data != NULL);
#ifndef GV_CBMC
    memset(g_data, 0, B.index + 1);
#endif
    B.data = g_data;
}
static void check_sent(int r, int fd)
{
    GV_ASSERT(r == 0 || r == -1, "status");
    GV_ASSERT(tr_sends == 1, "handed to the transport exactly once");
    GV_ASSERT(tr_send_data == g_data && tr_send_n == B.index, "exactly the message's bytes");
    GV_ASSERT(tr_send_fd == fd, "on the connection of the addressee");
    GV_ASSERT((r == 0) == (tr_send_ret == (int64_t)B.index), "success exactly if everything was taken");
    GV_ASSERT(B.data == g_data, "message unchanged");
    GV_COVER(r == 0, "sent"); GV_COVER(r != 0 && tr_send_ret >= 0, "short send"); GV_COVER(r != 0 && tr_send_ret < 0, "failed send");
}
/* events and responses to a stream client */
void h_stream_client(void)
{
    int ok;
    tr_any(); any_link(gracht_link_stream_based);
    gv_malloc_may_fail = 1;
    struct gracht_server_client* c = connected_client(&ok);
    if (!ok) { GV_REACH("no client"); return; }
    int fd = c->handle;
    GV_ASSERT(tr_adds == 1 && tr_aio_fd == fd && tr_aio_set == 7, "watched");
    GV_ASSERT(c->flags == 0, "no flags yet");
    any_message();
    unsigned flags = gv_u32() & (GRACHT_MESSAGE_BLOCK | GRACHT_MESSAGE_WAITALL);
    int r = OPS.send_client(c, &B, flags);
    check_sent(r, fd);
    GV_ASSERT(tr_send_addr == NULL, "over its connection");
    GV_ASSERT((flags & GRACHT_MESSAGE_BLOCK) ? !(tr_send_flags & MSG_DONTWAIT) : (tr_send_flags & MSG_DONTWAIT) != 0, "blocking as requested");
    OPS.destroy_client(c, 7);
    GV_ASSERT(tr_closes == 1 && tr_closed_fd == fd && tr_dels == 1 && tr_aio_fd == fd, "connection closed once");
    GV_ASSERT(gv_live_blocks == 0, "client object released once");
}
/* events to a connectionless client registered from a message */
void h_packet_client(void)
{
    struct gracht_server_client* c = NULL;
    tr_any(); any_link(gracht_link_packet_based); any_buffer();
    uint8_t a = tr_ak < L.address_length ? M->payload[tr_ak] : 0;
    int id = M->client;
    gv_malloc_may_fail = 1;
    int r = OPS.create_client(&L.base, M, &c);
    if (r) { GV_ASSERT(gv_live_blocks == 0, "nothing kept"); GV_REACH("no memory"); return; }
    GV_ASSERT(c->handle == id, "identity of the message's sender");
    for (int i = 0; i < 8; i++) GV_ASSERT(c->subscriptions[i] == 0, "subscribed to nothing yet");
    GV_ASSERT(c->flags == 0, "no flags yet");
    M->payload[0] ^= 0x55; /* the message may go away */
    any_message();
    unsigned flags = gv_u32() & (GRACHT_MESSAGE_BLOCK | GRACHT_MESSAGE_WAITALL);
    r = OPS.send_client(c, &B, flags);
    check_sent(r, tr_fd);
    GV_ASSERT(tr_send_addr != NULL && tr_send_alen == L.address_length, "as a datagram to an address");
    if (tr_ak < L.address_length) GV_ASSERT(tr_send_abyte == a, "the address the request came from");
    GV_ASSERT((flags & GRACHT_MESSAGE_BLOCK) ? !(tr_send_flags & MSG_DONTWAIT) : (tr_send_flags & MSG_DONTWAIT) != 0, "blocking as requested");
    OPS.destroy_client(c, 7);
    GV_ASSERT(tr_closes == 0 && tr_dels == 0, "no descriptor closed or unwatched");
    GV_ASSERT(gv_live_blocks == 0, "client object released once");
}
/* response to a datagram */
void h_send_packet(void)
{
    tr_any(); any_link(gracht_link_packet_based); any_buffer();
    if (gv_bool()) L.base.type = gracht_link_stream_based;
    any_message();
    M->index = L.address_length;
    uint8_t a = tr_ak < L.address_length ? M->payload[tr_ak] : 0;
    int r = OPS.send(&L.base, M, &B);
    if (L.base.type != gracht_link_packet_based) { GV_ASSERT(r == -1 && tr_sends == 0, "nothing is sent through a stream link"); return; }
    check_sent(r, tr_fd);
    GV_ASSERT(tr_send_addr != NULL && tr_send_alen == L.address_length, "as a datagram to an address");
    if (tr_ak < L.address_length) GV_ASSERT(tr_send_abyte == a, "the address the request came from");
}
void h_misuse(void)
{
    struct gracht_server_client* c = NULL;
    tr_any(); any_link(gv_bool() ? gracht_link_packet_based : gracht_link_stream_based); any_buffer();
    GV_ASSERT(OPS.create_client(NULL, M, &c) == -1 && OPS.create_client(&L.base, NULL, &c) == -1 && OPS.create_client(&L.base, M, NULL) == -1, "refused");
    GV_ASSERT(OPS.destroy_client(NULL, 7) == -1 && tr_closes == 0, "refused");
    if (L.base.type == gracht_link_packet_based) { GV_ASSERT(OPS.accept_client(&L.base, 7, &c) == -1, "refused"); }
    GV_ASSERT(gv_live_blocks == 0, "nothing kept");
    GV_REACH("end");
}
