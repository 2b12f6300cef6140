From c2472566b6e2b948514c127c981632823e4ed2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:57 +0000
Subject: [PATCH 01/21] fix: arena: never walk past the last block, and merge
 neighbouring free blocks

Block walks counted payload bytes only and therefore ran past the end of the
arena once it was nearly full, and releasing the last block read (and merged)
whatever lies behind the arena. Blocks that were released in allocation order
never merged, so an arena with nothing in use could refuse every allocation.
---
 runtime/arena.c | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/runtime/arena.c b/runtime/arena.c
index 50b05fa..a30168c 100644
--- a/runtime/arena.c
+++ b/runtime/arena.c
@@ -117,24 +117,33 @@ static inline void move_header(struct gracht_header* header, long byteCount)
     memmove(target, header, HEADER_SIZE);
 }
 
+// returns the header that follows, or NULL if the header is the last one in the arena
+static inline struct gracht_header* next_header(struct gracht_arena* arena, struct gracht_header* header)
+{
+    struct gracht_header* next = GET_NEXT_HEADER(header);
+    return (char*)next < (char*)arena->base + arena->length ? next : NULL;
+}
+
 static inline struct gracht_header* find_free_header(struct gracht_arena* arena, uint32_t size)
 {
-    struct gracht_header* itr    = arena->base;
-    uint32_t              length = 0;
+    struct gracht_header* itr = arena->base;
 
     GRTRACE(GRSTR("find_free_header(arena=0x%p, size=%u)"), arena, size);
-    while (length < arena->length) {
+    while (itr) {
+        struct gracht_header* next = next_header(arena, itr);
         GRTRACE(GRSTR("header: at=0x%p length=%u, allocated=%i"), itr, itr->length, itr->allocated);
-        if (!itr->allocated && itr->length >= size) {
-            return itr;
+        if (!itr->allocated) {
+            // freeing only merges with the block that follows, so blocks that were freed
+            // in order are merged here, otherwise they would stay fragmented forever
+            while (next && !next->allocated) {
+                itr->length += next->length + HEADER_SIZE;
+                next = next_header(arena, itr);
+            }
+            if (itr->length >= size) {
+                return itr;
+            }
         }
-
-        if (!itr->length) {
-            break;
-        }
-
-        length += itr->length;
-        itr = GET_NEXT_HEADER(itr);
+        itr = next;
     }
     return NULL;
 }
@@ -214,7 +223,7 @@ void gracht_arena_free(struct gracht_arena* arena, void* memory, size_t size)
 
     mtx_lock(&arena->mutex);
     header     = GET_HEADER(memory);
-    nextHeader = GET_NEXT_HEADER(header);
+    nextHeader = next_header(arena, header);
 
     // currently we only merge in forward direction, to merge in backwards
     // direction without iterating we need to add an allocation footer
@@ -231,7 +240,7 @@ void gracht_arena_free(struct gracht_arena* arena, void* memory, size_t size)
 
         // either we must adjust the header link or create a new
         // based on whether its free or not
-        if (!nextHeader->allocated) {
+        if (nextHeader && !nextHeader->allocated) {
             long negated = 0 - (long)allocLength;
             GRTRACE(GRSTR("%p=moving by %li bytes"), nextHeader, negated);
 
@@ -246,7 +255,7 @@ void gracht_arena_free(struct gracht_arena* arena, void* memory, size_t size)
     }
     else {
         header->allocated = 0;
-        if (!nextHeader->allocated) {
+        if (nextHeader && !nextHeader->allocated) {
             header->length += nextHeader->length + HEADER_SIZE;
         }
     }
-- 
2.43.0


From eef24c177d6225143053940db06a9270fd0011f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:18 +0000
Subject: [PATCH 02/21] fix: arena: extending a block checks the neighbour's
 size and survives exhaustion

Extending into a free neighbour that is too small underflowed its length, and
relocating with no room left dereferenced NULL.
---
 runtime/arena.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/runtime/arena.c b/runtime/arena.c
index a30168c..487f936 100644
--- a/runtime/arena.c
+++ b/runtime/arena.c
@@ -161,16 +161,22 @@ void* gracht_arena_allocate(struct gracht_arena* arena, void* allocation, size_t
     mtx_lock(&arena->mutex);
     if (allocation) {
         struct gracht_header* header     = GET_HEADER(allocation);
-        struct gracht_header* nextHeader = GET_NEXT_HEADER(header);
+        struct gracht_header* nextHeader = next_header(arena, header);
 
-        if (!nextHeader || nextHeader->allocated) {
+        if (!nextHeader || nextHeader->allocated || nextHeader->length < correctedSize) {
             // we must reallocate the memory space to somewhere else
             correctedSize += header->length;
 
             allocHeader = find_free_header(arena, correctedSize);
+            if (!allocHeader) {
+                mtx_unlock(&arena->mutex);
+                return NULL;
+            }
             memcpy(&allocHeader->payload[0], &header->payload[0], header->length);
 
-            // what consequences could this call have
+            // the new block may directly follow the old one, mark it in use before the
+            // old one is released so they are not merged
+            allocHeader->allocated = 1;
             gracht_arena_free(arena, allocation, header->length);
         }
         else {
-- 
2.43.0


From b74453a0962a16abf47c92160ba6c9fe4d8869a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:50 +0000
Subject: [PATCH 03/21] fix: arena: refuse sizes the block header cannot
 describe

Lengths were silently truncated to 24 bits: an arena of 16 MB or more ran off its
initialised blocks, larger requests got a smaller block, and releasing more than a
block holds corrupted its length.
---
 runtime/arena.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/runtime/arena.c b/runtime/arena.c
index 487f936..1bcaa4c 100644
--- a/runtime/arena.c
+++ b/runtime/arena.c
@@ -32,9 +32,9 @@
 #include <string.h>
 
 struct gracht_header {
-    uint32_t length    : 24;
+    uint32_t length    : 30;
     uint32_t allocated : 1;
-    uint32_t flags     : 7;
+    uint32_t flags     : 1;
     uint32_t payload[1];
 };
 
@@ -47,6 +47,8 @@ struct gracht_arena {
 // for our purposes we require atleast 128 bytes for a new message
 #define ALLOCATION_SPILLOVER_THRESHOLD 128
 
+// the largest arena (and allocation) the length member of the header can describe
+#define ARENA_MAX_LENGTH     0x3FFFFFFF
 #define HEADER_SIZE          (sizeof(struct gracht_header) - sizeof(uint32_t))
 #define GET_HEADER(ptr)      ((struct gracht_header*)((char*)(ptr) - HEADER_SIZE))
 #define GET_NEXT_HEADER(hdr) ((struct gracht_header*)((char*)(hdr) + (HEADER_SIZE + (hdr)->length)))
@@ -58,7 +60,7 @@ int gracht_arena_create(size_t size, struct gracht_arena** arenaOut)
     struct gracht_arena* arena;
     void*                base;
 
-    if (!size || !arenaOut) {
+    if (size <= HEADER_SIZE || size > ARENA_MAX_LENGTH || !arenaOut) {
         errno = EINVAL;
         return -1;
     }
@@ -81,7 +83,7 @@ int gracht_arena_create(size_t size, struct gracht_arena** arenaOut)
     arena->length = size;
 
     // initialize the first header
-    arena->base->length = (uint32_t)(size & 0x00FFFFFF) - HEADER_SIZE;
+    arena->base->length = (uint32_t)size - HEADER_SIZE;
     arena->base->flags  = 0;
     arena->base->allocated = 0;
 
@@ -151,10 +153,10 @@ static inline struct gracht_header* find_free_header(struct gracht_arena* arena,
 void* gracht_arena_allocate(struct gracht_arena* arena, void* allocation, size_t size)
 {
     struct gracht_header* allocHeader;
-    uint32_t              correctedSize = (uint32_t)(size & 0x00FFFFFF);
+    uint32_t              correctedSize = (uint32_t)size;
     GRTRACE(GRSTR("gracht_arena_allocate(arena=0x%p, allocation=0x%p, size=%u)"), arena, allocation, correctedSize);
 
-    if (!arena || !size) {
+    if (!arena || !size || size > ARENA_MAX_LENGTH) {
         return NULL;
     }
 
@@ -210,7 +212,7 @@ void* gracht_arena_allocate(struct gracht_arena* arena, void* allocation, size_t
 
     // update current header
     allocHeader->allocated = 1;
-    allocHeader->length = (uint32_t)(correctedSize & 0x00FFFFFF);
+    allocHeader->length = correctedSize;
     GRTRACE(GRSTR("gracht_arena_allocate returns=%p"), &allocHeader->payload[0]);
     mtx_unlock(&arena->mutex);
     return &allocHeader->payload[0];
@@ -220,7 +222,7 @@ void gracht_arena_free(struct gracht_arena* arena, void* memory, size_t size)
 {
     struct gracht_header* header;
     struct gracht_header* nextHeader;
-    uint32_t              allocLength = (uint32_t)(size & 0x00FFFFFF);
+    uint32_t              allocLength = (uint32_t)size;
     GRTRACE(GRSTR("gracht_arena_free(arena=0x%p, memory=0x%p, size=%u)"), arena, memory, allocLength);
 
     if (!arena || !memory) {
@@ -233,7 +235,7 @@ void gracht_arena_free(struct gracht_arena* arena, void* memory, size_t size)
 
     // currently we only merge in forward direction, to merge in backwards
     // direction without iterating we need to add an allocation footer
-    if (allocLength != 0 && header->length != allocLength) {
+    if (size != 0 && size < header->length) {
         // must free atleast enough, otherwise skip partial-free operation
         if (allocLength < sizeof(struct gracht_header)) {
             mtx_unlock(&arena->mutex);
-- 
2.43.0


From 737a006cddd7a43f1688327117b338ce07dc22b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:17 +0000
Subject: [PATCH 04/21] fix: stack: guard the buffer pool with a lock; growing
 counted the pushed slot twice

stack_push reserved a slot with an atomic add, and when that slot was beyond
the storage it resized and reserved a second one, leaving a hole holding an
uninitialized pointer that stack_pop later handed out. A concurrent pop could
also read a slot that was reserved but not yet written, or storage being
replaced, and hand out a pointer already lent to someone else.
---
 include/stack.h | 12 +++++----
 runtime/stack.c | 70 ++++++++++++++++++-------------------------------
 2 files changed, 32 insertions(+), 50 deletions(-)

diff --git a/include/stack.h b/include/stack.h
index 3ae0581..86ed692 100644
--- a/include/stack.h
+++ b/include/stack.h
@@ -14,19 +14,21 @@
  * You should have received a copy of the GNU General Public License
  * along with this program. If not, see <http://www.gnu.org/licenses/>.
  *
- * Lockless stack implementation
+ * Stack implementation, shared between threads
  */
 
 #ifndef __GRACHT_STACK_H__
 #define __GRACHT_STACK_H__
 
-#include "gatomic.h"
+#include "thread_api.h"
 #include <stddef.h>
+#include <stdint.h>
 
 struct stack {
-    atomic_uintptr_t elements;
-    atomic_uint      index;
-    size_t           count;
+    uintptr_t*   elements;
+    unsigned int index;
+    size_t       count;
+    mtx_t        lock;
 };
 
 int   stack_construct(struct stack* stack, size_t initialCount);
diff --git a/runtime/stack.c b/runtime/stack.c
index 7014364..3ce6417 100644
--- a/runtime/stack.c
+++ b/runtime/stack.c
@@ -14,7 +14,7 @@
  * You should have received a copy of the GNU General Public License
  * along with this program. If not, see <http://www.gnu.org/licenses/>.
  *
- * Lockless stack implementation
+ * Stack implementation, shared between threads
  */
 
 #include <errno.h>
@@ -23,21 +23,15 @@
 #include <stdlib.h>
 #include <string.h>
 
-#ifdef _WIN32
-typedef uintptr_t uint_loaded_t;
-#else
-typedef unsigned int uint_loaded_t;
-#endif
-
 int stack_construct(struct stack* stack, size_t initialCount)
 {
-    uintptr_t space;
+    uintptr_t* space;
     if (!stack || !initialCount) {
         errno = EINVAL;
         return -1;
     }
 
-    space = (uintptr_t)malloc(sizeof(uintptr_t) * initialCount);
+    space = malloc(sizeof(uintptr_t) * initialCount);
     if (!space) {
         errno = ENOMEM;
         return -1;
@@ -46,6 +40,7 @@ int stack_construct(struct stack* stack, size_t initialCount)
     stack->elements = space;
     stack->index    = 0;
     stack->count    = initialCount;
+    mtx_init(&stack->lock, mtx_plain);
     return 0;
 }
 
@@ -55,71 +50,56 @@ void stack_destroy(struct stack* stack)
         return;
     }
 
-    free((void*)atomic_load(&stack->elements));
+    mtx_destroy(&stack->lock);
+    free(stack->elements);
 }
 
-int stack_resize(struct stack* stack, size_t newSize)
+static int stack_resize(struct stack* stack, size_t newSize)
 {
-    uintptr_t original = atomic_load(&stack->elements);
-    uintptr_t resized  = (uintptr_t)malloc(sizeof(uintptr_t) * newSize);
-    int       result;
-
+    uintptr_t* resized = malloc(sizeof(uintptr_t) * newSize);
     if (!resized) {
         errno = ENOMEM;
         return -1;
     }
 
-    memcpy((void*)resized, (const void*)original, sizeof(uintptr_t) * stack->count);
-    
-    result = atomic_compare_exchange_strong(&stack->elements, &original, resized);
-    if (!result) {
-        // try again, someone else beat us to it
-        free((void*)resized);
-        return 0;
-    }
-
-    stack->count = newSize;
+    memcpy(resized, stack->elements, sizeof(uintptr_t) * stack->count);
+    free(stack->elements);
+    stack->elements = resized;
+    stack->count    = newSize;
     return 0;
 }
 
 void stack_push(struct stack* stack, void* pointer)
 {
-    uint_loaded_t index;
-
     if (!stack || !pointer) {
         return;
     }
 
-perform_push:
-    index = atomic_fetch_add(&stack->index, 1);
-    if (index >= stack->count) {
+    // reserving a slot, growing and filling the slot must not be seen half done
+    // by another thread, otherwise a pointer can be handed out twice
+    mtx_lock(&stack->lock);
+    if (stack->index >= stack->count) {
         if (stack_resize(stack, stack->count * 2)) {
+            mtx_unlock(&stack->lock);
             return;
         }
-        goto perform_push;
     }
-
-    ((uintptr_t*)atomic_load(&stack->elements))[index] = (uintptr_t)pointer;
+    stack->elements[stack->index++] = (uintptr_t)pointer;
+    mtx_unlock(&stack->lock);
 }
 
 void* stack_pop(struct stack* stack)
 {
-    uint_loaded_t index;
-    int           result;
+    void* pointer = NULL;
 
     if (!stack) {
         return NULL;
     }
 
-perform_pop:
-    index = atomic_load(&stack->index);
-    if (!index) {
-        return NULL;
-    }
-
-    result = atomic_compare_exchange_strong(&stack->index, &index, index - 1);
-    if (!result) {
-        goto perform_pop;
+    mtx_lock(&stack->lock);
+    if (stack->index) {
+        pointer = (void*)stack->elements[--stack->index];
     }
-    return (void*)((uintptr_t*)atomic_load(&stack->elements))[index - 1];
+    mtx_unlock(&stack->lock);
+    return pointer;
 }
-- 
2.43.0


From ed1326551dc01c97ff02ed57229875e54d9f35ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:58 +0000
Subject: [PATCH 05/21] fix: socket server: keep message boundaries on short
 reads and refuse impossible lengths

A header that arrived in pieces was dropped and the following bytes were taken
for a new header. The declared length was used unchecked, so a length below the
header size or above the receive buffer made recv write outside the message.
A stream that cannot be followed any more is now reported with EFAULT, which the
server takes as the signal to drop the connection.
---
 runtime/link/socket/server.c | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/runtime/link/socket/server.c b/runtime/link/socket/server.c
index 01ccb1f..2f93c5d 100644
--- a/runtime/link/socket/server.c
+++ b/runtime/link/socket/server.c
@@ -155,17 +155,36 @@ static int socket_link_recv_client(struct socket_link_client* client,
     }
 #else
     bytesRead = recv(client->base.handle, &context->payload[0], GRACHT_MESSAGE_HEADER_SIZE, socketFlags);
-    if (bytesRead != GRACHT_MESSAGE_HEADER_SIZE) {
+    if (bytesRead <= 0) {
         if (bytesRead == 0) {
             errno = ENODATA;
         }
         return -1;
     }
+
+    if (bytesRead != GRACHT_MESSAGE_HEADER_SIZE) {
+        // the bytes read so far are consumed, so the rest of the header must be read
+        // now, otherwise we would lose track of where messages start
+        missingData = GRACHT_MESSAGE_HEADER_SIZE - (uint32_t)bytesRead;
+        bytesRead   = recv(client->base.handle, &context->payload[bytesRead], (size_t)missingData, MSG_WAITALL);
+        if (bytesRead != missingData) {
+            errno = EFAULT;
+            return -1;
+        }
+    }
 #endif
     
     GRTRACE(GRSTR("socket_link_recv_client message id %u, length of message %u"), 
         *((uint32_t*)&context->payload[0]), *((uint32_t*)&context->payload[4]));
-    missingData = *((uint32_t*)&context->payload[4]) - GRACHT_MESSAGE_HEADER_SIZE;
+    missingData = *((uint32_t*)&context->payload[4]);
+    if (missingData < GRACHT_MESSAGE_HEADER_SIZE || missingData > context->index) {
+        // there is no way to find the next message in the stream, so give it up
+        GRERROR(GRSTR("socket_link_recv_client invalid message length %u"), missingData);
+        errno = EFAULT;
+        return -1;
+    }
+
+    missingData -= GRACHT_MESSAGE_HEADER_SIZE;
     if (missingData) {
         GRTRACE(GRSTR("socket_link_recv_client reading message payload"));
         bytesRead = recv(client->base.handle, &context->payload[GRACHT_MESSAGE_HEADER_SIZE], 
@@ -174,7 +193,7 @@ static int socket_link_recv_client(struct socket_link_client* client,
             // do not process incomplete requests
             GRERROR(GRSTR("socket_link_recv_client did not read full amount of bytes (%u, expected %u)"),
                   (uint32_t)bytesRead, missingData);
-            errno = (EPIPE);
+            errno = (EFAULT);
             return -1;
         }
     }
-- 
2.43.0


From f37e53ec07a92573e18619741f523e8dddfda2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:58 +0000
Subject: [PATCH 06/21] fix: socket server: answer datagrams to the address
 they came from

Responses were sent with send() on the unconnected listening socket, events for
connection-less clients were sent to a descriptor numbered like the checksum of
the client's address, and dropping such a client closed that descriptor.
---
 runtime/link/socket/server.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/runtime/link/socket/server.c b/runtime/link/socket/server.c
index 2f93c5d..9698e8a 100644
--- a/runtime/link/socket/server.c
+++ b/runtime/link/socket/server.c
@@ -34,6 +34,7 @@
 struct socket_link_client {
     struct gracht_server_client base;
     struct sockaddr_storage     address;
+    socklen_t                   address_length;
     gracht_conn_t               socket;
     gracht_conn_t               link;
     int                         streaming;
@@ -110,7 +111,13 @@ static int socket_link_send_client(struct socket_link_client* client,
 #endif
 
     GRTRACE(GRSTR("[socket_link_send] sending message"));
-    bytesWritten = send(client->base.handle, &message->data[0], message->index, socketFlags);
+    if (client->streaming) {
+        bytesWritten = send(client->base.handle, &message->data[0], message->index, socketFlags);
+    } else {
+        // connection-less clients have no socket of their own, their handle only identifies them
+        bytesWritten = sendto(client->socket, &message->data[0], message->index, socketFlags,
+            (const struct sockaddr*)&client->address, client->address_length);
+    }
     if (bytesWritten != message->index) {
         return -1;
     }
@@ -237,10 +244,12 @@ static int socket_link_create_client(struct gracht_link_socket* link, struct gra
     memset(client, 0, sizeof(struct socket_link_client));
     client->base.handle = message->client;
     client->socket      = link->base.connection;
+    client->link        = link->base.connection;
     client->streaming   = 0;
 
     address = (struct sockaddr_storage*)&message->payload[0];
     memcpy(&client->address, address, (size_t)link->address_length);
+    client->address_length = link->address_length;
     
     *clientOut = client;
     return 0;
@@ -248,21 +257,22 @@ static int socket_link_create_client(struct gracht_link_socket* link, struct gra
 
 static int socket_link_destroy_client(struct socket_link_client* client, gracht_handle_t set_handle)
 {
-    int status;
+    int status = 0;
     
     if (!client) {
         errno = (EINVAL);
         return -1;
     }
     
-    // remove the client if the client is a streaming one
+    // remove the client if the client is a streaming one, connection-less clients
+    // share the socket of the link
     if (client->streaming) {
         status = socket_aio_remove(set_handle, client->socket);
         if (status) {
             GRWARNING(GRSTR("socket_link_destroy_client failed to remove client socket from set_handle"));
         }
+        status = close(client->base.handle);
     }
-    status = close(client->base.handle);
     free(client);
     return status;
 }
@@ -433,6 +443,7 @@ static int socket_link_accept(
         return -1;
     }
     client->base.handle = client->socket;
+    client->link        = link->base.connection;
     client->streaming   = 1;
     
     status = socket_aio_add(set_handle, client->socket);
@@ -528,14 +539,15 @@ static int socket_link_send_packet(struct gracht_link_socket* link,
     struct gracht_message* messageContext, struct gracht_buffer* message)
 {
     long bytesWritten;
-    (void)messageContext;
 
     if (link->base.type != gracht_link_packet_based) {
         errno = ENOSYS;
         return -1;
     }
     
-    bytesWritten = (long)send(link->base.connection, &message->data[0], message->index, MSG_WAITALL);
+    // the address of the sender is stored in front of the message it sent
+    bytesWritten = (long)sendto(link->base.connection, &message->data[0], message->index, 0,
+        (const struct sockaddr*)&messageContext->payload[0], link->address_length);
     if (bytesWritten != message->index) {
         GRERROR(GRSTR("link_server: failed to respond [%li/%i]"), bytesWritten, message->index);
         if (bytesWritten == -1) {
-- 
2.43.0


From 01c0f04fc1d423581faa9426d89c34c03d6c3ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:58 +0000
Subject: [PATCH 07/21] fix: socket server: drop datagrams without a whole
 message, find the payload behind the address

recvfrom updates the address length, but the data is always placed behind the
full length reserved for it, so a shorter address moved the message header the
dispatcher reads, and a longer one made the checksum cover message bytes. The
windows branch keeps its own reading.
---
 runtime/link/socket/server.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/runtime/link/socket/server.c b/runtime/link/socket/server.c
index 9698e8a..d6691f9 100644
--- a/runtime/link/socket/server.c
+++ b/runtime/link/socket/server.c
@@ -470,6 +470,9 @@ static int socket_link_recv_packet(struct gracht_link_socket* link,
         return -1;
     }
 
+    // unused bytes of the address must not differ between packets from the same sender
+    memset(&context->payload[0], 0, (size_t)addrlen);
+
 #ifdef _WIN32
     DWORD overlappedFlags;
     DWORD overlappedLength;
@@ -508,8 +511,19 @@ static int socket_link_recv_packet(struct gracht_link_socket* link,
         }
         return -1;
     }
+
+    // packets that do not hold a whole message are not processed, the length is what
+    // the rest of the server goes by
+    if (bytesRead < GRACHT_MESSAGE_HEADER_SIZE ||
+        *((uint32_t*)&base[4]) < GRACHT_MESSAGE_HEADER_SIZE || *((uint32_t*)&base[4]) > (uint32_t)bytesRead) {
+        GRERROR(GRSTR("socket_link_recv_packet dropping incomplete message of %li bytes"), (long)bytesRead);
+        errno = EPROTO;
+        return -1;
+    }
 #endif
 
+    // the address may have been shorter or longer than what was reserved for it
+    addrlen    = link->address_length;
     addressCrc = crc32_generate((const unsigned char*)&context->payload[0], (size_t)addrlen);
     GRTRACE(GRSTR("socket_link_recv_packet read [%u/%u] addr bytes, %p"),
             addrlen, link->address_length, &context->payload[0]);
-- 
2.43.0


From 7b4a577bcd18a16e6411d16598671b4255419a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:45 +0000
Subject: [PATCH 08/21] fix: socket client: check the declared message length,
 finish a header read in part

The declared length was used unchecked against the supplied buffer, and a header
of which only some bytes had arrived was dropped, so that the next read took the
rest of it for a new header.
---
 runtime/link/socket/client.c | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/runtime/link/socket/client.c b/runtime/link/socket/client.c
index 79c1dbd..b944e21 100644
--- a/runtime/link/socket/client.c
+++ b/runtime/link/socket/client.c
@@ -47,11 +47,19 @@ static int socket_link_send_stream(struct gracht_link_socket* link,
 static int socket_link_recv_stream(struct gracht_link_socket* link,
     struct gracht_buffer* message, unsigned int flags)
 {
-    size_t   bytesRead;
+    intmax_t bytesRead;
     uint32_t missingData;
     
     GRTRACE(GRSTR("[gracht_connection_recv_stream] reading message header"));
     bytesRead = recv(link->base.connection, &message->data[0], GRACHT_MESSAGE_HEADER_SIZE, flags);
+    if (bytesRead > 0 && bytesRead < GRACHT_MESSAGE_HEADER_SIZE) {
+        // the bytes read so far are consumed, so the rest of the header must be read
+        // now, otherwise we would lose track of where messages start
+        missingData = GRACHT_MESSAGE_HEADER_SIZE - (uint32_t)bytesRead;
+        if (recv(link->base.connection, &message->data[bytesRead], missingData, MSG_WAITALL) == (intmax_t)missingData) {
+            bytesRead = GRACHT_MESSAGE_HEADER_SIZE;
+        }
+    }
     if (bytesRead != GRACHT_MESSAGE_HEADER_SIZE) {
         if (bytesRead == 0) {
             errno = (ENODATA);
@@ -62,7 +70,14 @@ static int socket_link_recv_stream(struct gracht_link_socket* link,
         return -1;
     }
     
-    missingData = *((uint32_t*)&message->data[4]) - GRACHT_MESSAGE_HEADER_SIZE;
+    missingData = *((uint32_t*)&message->data[4]);
+    if (missingData < GRACHT_MESSAGE_HEADER_SIZE || missingData > message->index) {
+        GRERROR(GRSTR("[gracht_connection_recv_message] invalid message length %u"), missingData);
+        errno = (EPIPE);
+        return -1;
+    }
+
+    missingData -= GRACHT_MESSAGE_HEADER_SIZE;
     if (missingData) {
         GRTRACE(GRSTR("[gracht_connection_recv_stream] reading message payload"));
         bytesRead = recv(link->base.connection, &message->data[GRACHT_MESSAGE_HEADER_SIZE], missingData, MSG_WAITALL);
@@ -101,7 +116,11 @@ static int socket_link_recv_packet(struct gracht_link_socket* link, struct grach
     char*     base    = &message->data[addrlen];
     size_t    len     = message->index - addrlen;
     long      bytes_read;
-    
+
+    if (message->index < addrlen + GRACHT_MESSAGE_HEADER_SIZE) {
+        errno = (EPIPE);
+        return -1;
+    }
     message->index = addrlen;
     
     // Packets are atomic, either the full packet is there, or none is. So avoid
@@ -109,7 +128,8 @@ static int socket_link_recv_packet(struct gracht_link_socket* link, struct grach
     GRTRACE(GRSTR("[gracht_connection_recv_stream] reading full message"));
     bytes_read = (long)recvfrom(link->base.connection, base, len, flags, 
         (struct sockaddr*)&message->data[0], &addrlen);
-    if (bytes_read < GRACHT_MESSAGE_HEADER_SIZE) {
+    if (bytes_read < GRACHT_MESSAGE_HEADER_SIZE ||
+        *((uint32_t*)&base[4]) < GRACHT_MESSAGE_HEADER_SIZE || *((uint32_t*)&base[4]) > (uint32_t)bytes_read) {
         if (bytes_read == 0) {
             errno = (ENODATA);
         }
-- 
2.43.0


From d10944b0f7a65617051defd68e98bd063cefc59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:19 +0000
Subject: [PATCH 09/21] fix: dispatch: do not lose a request when the worker's
 queue is full

The result of the enqueue was ignored, so the request was neither executed nor
its memory released.
---
 runtime/dispatch_generic.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/runtime/dispatch_generic.c b/runtime/dispatch_generic.c
index 3f76a4d..84b31b9 100644
--- a/runtime/dispatch_generic.c
+++ b/runtime/dispatch_generic.c
@@ -119,6 +119,7 @@ void gracht_worker_pool_destroy(struct gracht_worker_pool* pool)
 void gracht_worker_pool_dispatch(struct gracht_worker_pool* pool, struct gracht_message* recvMessage)
 {
     struct gracht_worker* worker;
+    int                   status;
 
     if (!pool || !recvMessage) {
         return;
@@ -126,9 +127,16 @@ void gracht_worker_pool_dispatch(struct gracht_worker_pool* pool, struct gracht_
 
     worker = &pool->workers[pool->rr_index];
     mtx_lock(&worker->sync_object);
-    gr_queue_enqueue(&worker->job_queue, recvMessage);
+    status = gr_queue_enqueue(&worker->job_queue, recvMessage);
     mtx_unlock(&worker->sync_object);
-    cnd_signal(&worker->signal);
+    if (!status) {
+        cnd_signal(&worker->signal);
+    } else {
+        // the worker is behind and has no room for more, do not drop the request
+        struct gracht_server* server = recvMessage->server;
+        server_invoke_action(server, recvMessage);
+        server_cleanup_message(server, recvMessage);
+    }
 
     // increase round robin index and handle limit
     pool->rr_index++;
-- 
2.43.0


From 7b0027a9699e3fe0ce0bf5eee6bf63b7e3a2c71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:19 +0000
Subject: [PATCH 10/21] fix: dispatch: workers survive spurious wake-ups and
 never miss the shutdown request

A wake-up without work made the worker invoke a NULL message. The state was
changed without the lock, so a request made between the worker's check and its
wait, or before the worker had marked itself alive, was lost and shutdown waited
forever.
---
 runtime/dispatch_generic.c | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/runtime/dispatch_generic.c b/runtime/dispatch_generic.c
index 84b31b9..f4507d6 100644
--- a/runtime/dispatch_generic.c
+++ b/runtime/dispatch_generic.c
@@ -103,7 +103,9 @@ void gracht_worker_pool_destroy(struct gracht_worker_pool* pool)
 
     // destroy pool of workers
     for (i = 0; i < pool->worker_count; i++) {
+        mtx_lock(&pool->workers[i].sync_object);
         pool->workers[i].state = WORKER_SHUTDOWN_REQUEST;
+        mtx_unlock(&pool->workers[i].sync_object);
         cnd_signal(&pool->workers[i].signal);
 
         // wait for cleanup
@@ -183,20 +185,27 @@ static int worker_dowork(void* context)
     GRTRACE(GRSTR("worker_dowork: running"));
 
     worker = workerContext->worker;
-    worker->state = WORKER_ALIVE;
+    mtx_lock(&worker->sync_object);
+    if (worker->state == WORKER_STARTUP) {
+        worker->state = WORKER_ALIVE;
+    }
+    mtx_unlock(&worker->sync_object);
+
     while (1) {
         mtx_lock(&worker->sync_object);
-        job = gr_queue_dequeue(&worker->job_queue);
-        if (!job) {
-            cnd_wait(&worker->signal, &worker->sync_object);
-            if (worker->state == WORKER_SHUTDOWN_REQUEST) {
-                worker->state = WORKER_SHUTDOWN;
-                mtx_unlock(&worker->sync_object);
+        job = NULL;
+        while (worker->state != WORKER_SHUTDOWN_REQUEST) {
+            job = gr_queue_dequeue(&worker->job_queue);
+            if (job) {
                 break;
             }
+            cnd_wait(&worker->signal, &worker->sync_object);
+        }
 
-            job = gr_queue_dequeue(&worker->job_queue);
-            // assert(job_header != NULL);
+        if (!job) {
+            worker->state = WORKER_SHUTDOWN;
+            mtx_unlock(&worker->sync_object);
+            break;
         }
         mtx_unlock(&worker->sync_object);
 
@@ -204,12 +213,6 @@ static int worker_dowork(void* context)
         GRTRACE(GRSTR("worker_dowork: handling message"));
         server_invoke_action(workerContext->server, job);
         server_cleanup_message(workerContext->server, job);
-
-        // check again at exit of iteration
-        if (worker->state == WORKER_SHUTDOWN_REQUEST) {
-            worker->state = WORKER_SHUTDOWN;
-            break;
-        }
     }
     GRTRACE(GRSTR("worker_dowork: shutting down"));
 
-- 
2.43.0


From 214500811f645f8fd03b546a6df035b47b888a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:19 +0000
Subject: [PATCH 11/21] fix: dispatch: a pool with a worker that could not be
 started is refused

Requests handed to such a worker would never run, and shutting the pool down
joined a thread that does not exist.
---
 runtime/dispatch_generic.c | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/runtime/dispatch_generic.c b/runtime/dispatch_generic.c
index f4507d6..3371752 100644
--- a/runtime/dispatch_generic.c
+++ b/runtime/dispatch_generic.c
@@ -52,7 +52,7 @@ struct gracht_worker_pool {
 };
 
 static int  worker_dowork(void*);
-static void initialize_worker(struct gracht_server*, struct gracht_worker*);
+static int  initialize_worker(struct gracht_server*, struct gracht_worker*);
 static void cleanup_worker(struct gracht_worker*);
 
 int gracht_worker_pool_create(struct gracht_server* server, int numberOfWorkers, struct gracht_worker_pool** poolOut)
@@ -85,7 +85,12 @@ int gracht_worker_pool_create(struct gracht_server* server, int numberOfWorkers,
     pool->worker_count = numberOfWorkers;
     pool->rr_index = 0;
     for (i = 0; i < numberOfWorkers; i++) {
-        initialize_worker(server, &pool->workers[i]);
+        if (initialize_worker(server, &pool->workers[i])) {
+            // only tear down those that were started
+            pool->worker_count = i;
+            gracht_worker_pool_destroy(pool);
+            return -1;
+        }
     }
 
     *poolOut = pool;
@@ -147,27 +152,37 @@ void gracht_worker_pool_dispatch(struct gracht_worker_pool* pool, struct gracht_
     }
 }
 
-static void initialize_worker(struct gracht_server* server, struct gracht_worker* worker)
+static int initialize_worker(struct gracht_server* server, struct gracht_worker* worker)
 {
     struct gracht_worker_context* context;
 
     context = malloc(sizeof(struct gracht_worker_context));
     if (!context) {
         GRERROR(GRSTR("initialize_worker: failed to allocate memory for worker context"));
-        return;
+        errno = ENOMEM;
+        return -1;
     }
 
     context->worker = worker;
     context->server = server;
 
-    gr_queue_construct(&worker->job_queue, SERVER_WORKER_DEFAULT_QUEUE_SIZE);
+    if (gr_queue_construct(&worker->job_queue, SERVER_WORKER_DEFAULT_QUEUE_SIZE)) {
+        GRERROR(GRSTR("initialize_worker: failed to allocate memory for worker queue"));
+        free(context);
+        return -1;
+    }
     mtx_init(&worker->sync_object, mtx_plain);
     cnd_init(&worker->signal);
     worker->state = WORKER_STARTUP;
 
     if (thrd_create(&worker->id, worker_dowork, context) != thrd_success) {
         GRERROR(GRSTR("initialize_worker: failed to create worker-thread"));
+        cleanup_worker(worker);
+        free(context);
+        errno = EAGAIN;
+        return -1;
     }
+    return 0;
 }
 
 static void cleanup_worker(struct gracht_worker* worker)
-- 
2.43.0


From a84e9820a9266c57bf90cb0a850abf148d9f653a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:13 +0000
Subject: [PATCH 12/21] fix: server: running out of receive memory neither
 crashes nor keeps a lock

get_in_buffer_mt wrote through the NULL it got from an exhausted arena,
handle_packet passed it on to the link, and handle_client_event returned with
the client lock still held.
---
 runtime/server.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/runtime/server.c b/runtime/server.c
index dd6a2bb..f1fdbf8 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -332,6 +332,9 @@ static struct gracht_message* get_in_buffer_mt(struct gracht_server* server)
 {
     struct gracht_message* message;
     message = gracht_arena_allocate(server->arena, NULL, server->allocationSize);
+    if (!message) {
+        return NULL;
+    }
     message->server = server;
     message->index  = server->allocationSize;
     return message;
@@ -349,6 +352,11 @@ static int handle_packet(struct gracht_server* server, struct gracht_link* link)
     
     while (1) {
         struct gracht_message* message = server->ops->get_incoming_buffer(server);
+        if (!message) {
+            GRERROR(GRSTR("handle_packet ran out of receiving buffers"));
+            errno = ENOMEM;
+            return -1;
+        }
 
         status = link->ops.server.recv(link, message, 0);
         if (status) {
@@ -393,6 +401,7 @@ static int handle_client_event(struct gracht_server* server, gracht_conn_t handl
         while (entry) {
             struct gracht_message* message = server->ops->get_incoming_buffer(server);
             if (!message) {
+                rwlock_r_unlock(&server->clients_lock);
                 GRERROR(GRSTR("handle_client_event ran out of receiving buffers"));
                 errno = ENOMEM;
                 return -1;
-- 
2.43.0


From b5f5c9a9ea208e67d69be362590c1a74bf7be70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:13 +0000
Subject: [PATCH 13/21] fix: server: tell links the room a message really has,
 trim it to what was received

The room handed to the links ignored the message's own header, so a message of
the largest size was written past the end of the buffer. A message that used its
whole buffer was released by the trim (freeing zero bytes means everything), and
the trim went by the length the sender declared instead of what was received.
An unused message was given back only up to the size asked for.
---
 runtime/server.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/runtime/server.c b/runtime/server.c
index f1fdbf8..9fcbb19 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -293,7 +293,7 @@ static struct gracht_message* get_in_buffer_st(struct gracht_server* server)
 {
     struct gracht_message* message = (struct gracht_message*)server->recvBuffer;
     message->server = server;
-    message->index  = server->allocationSize;
+    message->index  = server->allocationSize - sizeof(struct gracht_message);
     return message;
 }
 
@@ -320,10 +320,12 @@ static void dispatch_mt(struct gracht_server* server, struct gracht_message* mes
         server_cleanup_message(server, message);
     }
     else {
-        uint32_t messageLength  = *((uint32_t*)&message->payload[message->index + MSG_INDEX_LEN]);
-        uint32_t metaDatalength = sizeof(struct gracht_message) + message->index;
-
-        gracht_arena_free(server->arena, message, server->allocationSize - messageLength - metaDatalength);
+        // give back what the message did not use, bearing in mind that freeing zero bytes
+        // releases the entire message
+        size_t unused = server->allocationSize - GRACHT_MESSAGE_DEFERRABLE_SIZE(message);
+        if (unused) {
+            gracht_arena_free(server->arena, message, unused);
+        }
         gracht_worker_pool_dispatch(server->worker_pool, message);
     }
 }
@@ -336,13 +338,13 @@ static struct gracht_message* get_in_buffer_mt(struct gracht_server* server)
         return NULL;
     }
     message->server = server;
-    message->index  = server->allocationSize;
+    message->index  = server->allocationSize - sizeof(struct gracht_message);
     return message;
 }
 
 static void put_message_mt(struct gracht_server* server, struct gracht_message* message)
 {
-    gracht_arena_free(server->arena, message, server->allocationSize);
+    gracht_arena_free(server->arena, message, 0);
 }
 
 static int handle_packet(struct gracht_server* server, struct gracht_link* link)
-- 
2.43.0


From 023430ce648b4add6660eb138fed8a0cf49d2fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:13 +0000
Subject: [PATCH 14/21] fix: server: give the buffer back when the addressee of
 a response or event is gone

---
 runtime/server.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/runtime/server.c b/runtime/server.c
index 9fcbb19..d118f6d 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -657,6 +657,7 @@ int gracht_server_respond(struct gracht_message* messageContext, gracht_buffer_t
         rwlock_r_unlock(&messageContext->server->clients_lock);
         link = get_link_by_conn(messageContext->server, messageContext->link);
         if (!link) {
+            stack_push(&messageContext->server->bufferStack, message->data);
             errno = ENODEV;
             return -1;
         }
@@ -689,6 +690,7 @@ int gracht_server_send_event(gracht_server_t* server, gracht_conn_t client, grac
     clientEntry = gr_hashtable_get(&server->clients, &(struct client_wrapper){ .handle = client });
     if (!clientEntry) {
         rwlock_r_unlock(&server->clients_lock);
+        stack_push(&server->bufferStack, message->data);
         errno = ENOENT;
         return -1;
     }
-- 
2.43.0


From 848ff74fe4f6134ad0d8f7b7d8de9935232d70ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:13 +0000
Subject: [PATCH 15/21] fix: server: subscribing through a link that is gone
 does not crash

---
 runtime/server.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/runtime/server.c b/runtime/server.c
index d118f6d..eb7119d 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -866,6 +866,11 @@ void gracht_control_subscribe_invocation(const struct gracht_message* message, c
 
         // lookup the connection as the client wasn't recorded on a specific link
         newEntry.link = get_link_by_conn(message->server, message->link);
+        if (!newEntry.link) {
+            GRERROR(GRSTR("gracht_control_subscribe_invocation message was received on an unknown link"));
+            return;
+        }
+
         if (newEntry.link->ops.server.create_client(newEntry.link, (struct gracht_message*)message, &newEntry.client)) {
             GRERROR(GRSTR("gracht_control_subscribe_invocation server_object.link->create_client returned error"));
             return;
-- 
2.43.0


From 7f9c111056c297137553cfafa2f11137c03a5ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:13 +0000
Subject: [PATCH 16/21] fix: server: report a disconnect only for clients that
 were connected

---
 runtime/server.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/runtime/server.c b/runtime/server.c
index eb7119d..a4a5d10 100644
--- a/runtime/server.c
+++ b/runtime/server.c
@@ -797,6 +797,13 @@ static void client_destroy(struct gracht_server* server, gracht_conn_t client)
 {
     struct client_wrapper* entry;
 
+    rwlock_r_lock(&server->clients_lock);
+    entry = gr_hashtable_get(&server->clients, &(struct client_wrapper){ .handle = client });
+    rwlock_r_unlock(&server->clients_lock);
+    if (!entry) {
+        return;
+    }
+
     if (server->callbacks.clientDisconnected) {
         server->callbacks.clientDisconnected(client);
     }
-- 
2.43.0


From 27574e02d3f26f34e9bf6efbbd0a9302787d008e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:29 +0000
Subject: [PATCH 17/21] fix: client: a response nobody waits for is dropped and
 its memory given back

---
 runtime/client.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/runtime/client.c b/runtime/client.c
index 841eaa6..28bfc95 100644
--- a/runtime/client.c
+++ b/runtime/client.c
@@ -206,7 +206,7 @@ static int __handle_response(
                 .id = GB_MSG_ID(buffer)
             }
     );
-    if (!descriptor) {
+    if (!descriptor || descriptor->status != GRACHT_MESSAGE_INPROGRESS) {
         mtx_unlock(&client->messages_lock);
         // what the heck?
         GRERROR(GRSTR("[gracht_client_wait_message] no-one was listening for message %u"), GB_MSG_ID(buffer));
@@ -310,6 +310,8 @@ listenForMessage:
     } else if (MESSAGE_FLAG_TYPE(messageFlags) == MESSAGE_FLAG_RESPONSE) {
         status = __handle_response(client, &buffer);
         if (status) {
+            gracht_arena_free(client->arena, buffer.data, 0);
+            buffer.data = NULL;
             goto listenForMessage;
         }
 
@@ -767,7 +769,7 @@ void gracht_control_error_invocation(gracht_client_t* client, const uint32_t mes
                 .id = messageId
             }
     );
-    if (!descriptor) {
+    if (!descriptor || descriptor->status != GRACHT_MESSAGE_INPROGRESS) {
         mtx_unlock(&client->messages_lock);
         // what the heck?
         GRERROR(GRSTR("gracht_control_error_invocation no-one was listening for message %u"), messageId);
-- 
2.43.0


From 601df0817fc7adecc687eb51a40ae8451b5e49fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:34 +0000
Subject: [PATCH 18/21] fix: client: asking for a result before it has arrived
 does not lose it

---
 runtime/client.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/runtime/client.c b/runtime/client.c
index 28bfc95..5ec8af9 100644
--- a/runtime/client.c
+++ b/runtime/client.c
@@ -523,7 +523,7 @@ int gracht_client_get_status_buffer(
     
     // guard against already checked
     mtx_lock(&client->messages_lock);
-    descriptor = gr_hashtable_remove(
+    descriptor = gr_hashtable_get(
             &client->messages,
             &(struct gracht_message_descriptor) {
                     .id = context->message_id
@@ -538,12 +538,23 @@ int gracht_client_get_status_buffer(
     status = descriptor->status;
     buffer->data = descriptor->buffer.data;
     buffer->index = descriptor->buffer.index;
+
+    // the message must stay known as long as its response is outstanding
+    if (MESSAGE_STATUS_EXECUTED(status)) {
+        gr_hashtable_remove(
+                &client->messages,
+                &(struct gracht_message_descriptor) {
+                        .id = context->message_id
+                }
+        );
+    }
     mtx_unlock(&client->messages_lock);
 
     // immediately cleanup the buffer if an error has ocurred
-    if (descriptor->status == GRACHT_MESSAGE_ERROR) {
-        if (descriptor->buffer.data) {
-            gracht_arena_free(client->arena, descriptor->buffer.data, 0);
+    if (status == GRACHT_MESSAGE_ERROR) {
+        if (buffer->data) {
+            gracht_arena_free(client->arena, buffer->data, 0);
+            buffer->data = NULL;
         }
     }
     return status;
-- 
2.43.0


From 22a6e9778cb36fc46c5d044cfdbe2d4c78d36646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:29 +0000
Subject: [PATCH 19/21] fix: client: never reuse the id of a message or awaiter
 that is still known

---
 runtime/client.c | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/runtime/client.c b/runtime/client.c
index 5ec8af9..ad42717 100644
--- a/runtime/client.c
+++ b/runtime/client.c
@@ -759,12 +759,38 @@ static void mark_awaiters(gracht_client_t* client, uint32_t awaiterID)
 
 static uint32_t get_message_id(gracht_client_t* client)
 {
-    return client->current_message_id++;
+    uint32_t messageID;
+
+    // the id must not be in use by a message that is still known, 0 means no message
+    mtx_lock(&client->messages_lock);
+    do {
+        messageID = client->current_message_id++;
+    } while (!messageID || gr_hashtable_get(
+            &client->messages,
+            &(struct gracht_message_descriptor) {
+                    .id = messageID
+            }
+    ));
+    mtx_unlock(&client->messages_lock);
+    return messageID;
 }
 
 static uint32_t get_awaiter_id(gracht_client_t* client)
 {
-    return client->current_awaiter_id++;
+    uint32_t awaiterID;
+
+    // the id must not be in use by another awaiter, 0 means no awaiter
+    mtx_lock(&client->awaiters_lock);
+    do {
+        awaiterID = client->current_awaiter_id++;
+    } while (!awaiterID || gr_hashtable_get(
+            &client->awaiters,
+            &(struct gracht_message_awaiter_entry) {
+                    .id = awaiterID
+            }
+    ));
+    mtx_unlock(&client->awaiters_lock);
+    return awaiterID;
 }
 
 void gracht_control_error_invocation(gracht_client_t* client, const uint32_t messageId, const int errorCode)
-- 
2.43.0


From 732fb4250c457bb0c398963937b9224f36ac8b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:13 +0000
Subject: [PATCH 20/21] fix: client: waiting for messages ends when, and only
 when, they are done

---
 runtime/client.c | 188 ++++++++++++++++++++++++++---------------------
 1 file changed, 103 insertions(+), 85 deletions(-)

diff --git a/runtime/client.c b/runtime/client.c
index ad42717..246c9b7 100644
--- a/runtime/client.c
+++ b/runtime/client.c
@@ -225,47 +225,49 @@ static int __handle_response(
     return 0;
 }
 
-int gracht_client_wait_message(
-        gracht_client_t*               client,
-        struct gracht_message_context* context,
-        unsigned int                   flags)
+// returns the number of messages in the context list that are no longer in progress
+static int __count_executed(
+        gracht_client_t*                client,
+        struct gracht_message_context** contexts,
+        int                             count)
+{
+    int executed = 0;
+
+    mtx_lock(&client->messages_lock);
+    for (int i = 0; i < count; i++) {
+        struct gracht_message_descriptor* descriptor = gr_hashtable_get(
+                &client->messages,
+                &(struct gracht_message_descriptor) {
+                        .id = contexts[i]->message_id
+                }
+        );
+        if (descriptor == NULL || MESSAGE_STATUS_EXECUTED(descriptor->status)) {
+            executed++;
+        }
+    }
+    mtx_unlock(&client->messages_lock);
+    return executed;
+}
+
+// receives and handles messages untill <required> of the messages in the context list are
+// no longer in progress. If the list is empty then a single message is handled.
+static int __wait_messages(
+        gracht_client_t*                client,
+        struct gracht_message_context** contexts,
+        int                             count,
+        int                             required,
+        unsigned int                    flags)
 {
     struct gracht_buffer buffer = { 0 };
-    uint32_t             messageId = 0;
     uint8_t              messageFlags;
     int                  status;
-    GRTRACE(GRSTR("gracht_client_wait_message()"));
-
-    if (!client) {
-        errno = (EINVAL);
-        return -1;
-    }
 
     // We must acquire hold of the client mutex as the mutex must be thread-safe in case
     // of multiple calling threads. Only one thread can listen for client events at a time, and that
     // means all other threads must queue up and wait for the thread that listens currently.
 listenForMessage:
-    // check message status
-    if (context) {
-        struct gracht_message_descriptor* descriptor;
-
-        mtx_lock(&client->messages_lock);
-        descriptor = gr_hashtable_get(
-                &client->messages,
-                &(struct gracht_message_descriptor) {
-                        .id = context->message_id
-                }
-        );
-        if (!descriptor) {
-            mtx_unlock(&client->messages_lock);
-            errno = ENOENT;
-            return -1;
-        }
-        if (descriptor->status != GRACHT_MESSAGE_INPROGRESS) {
-            mtx_unlock(&client->messages_lock);
-            return 0;
-        }
-        mtx_unlock(&client->messages_lock);
+    if (count && __count_executed(client, contexts, count) >= required) {
+        return 0;
     }
 
     if (mtx_trylock(&client->wait_lock) != thrd_success) {
@@ -279,7 +281,12 @@ listenForMessage:
         }
     }
 
-    // initialize buffer, after this point NO returning, only jump to listenOrExit
+    // the thread that was listening before us may have received what we are waiting for
+    if (count && __count_executed(client, contexts, count) >= required) {
+        mtx_unlock(&client->wait_lock);
+        return 0;
+    }
+
     buffer.data = gracht_arena_allocate(client->arena, NULL, client->max_message_size);
     buffer.index = client->max_message_size;
 
@@ -287,56 +294,84 @@ listenForMessage:
         mtx_unlock(&client->wait_lock);
         // out of memory. client should handle messages
         errno = ENOMEM;
-        status = -1;
-        goto listenOrExit;
+        return -1;
     }
 
     status = client->link->ops.client.recv(client->link, &buffer, flags);
-    mtx_unlock(&client->wait_lock);
     if (status) {
         // In case of any recieving errors we must exit immediately
-        goto listenOrExit;
+        mtx_unlock(&client->wait_lock);
+        gracht_arena_free(client->arena, buffer.data, 0);
+        return status;
     }
 
     messageFlags = GB_MSG_FLG(&buffer);
 
     // If the message is not an event, then do not invoke any actions. In any case if a context is provided
     // we expect the caller wanting to listen for that specific message. That means any incoming event and/or
-    // response we recieve should be for that, or we should keep waiting.
+    // response we recieve should be for that, or we should keep waiting. Responses (and the control events that
+    // also complete messages) are handled before another thread is allowed to listen.
     GRTRACE(GRSTR("[gracht] [client] message received %u - %u:%u"),
             messageFlags, GB_MSG_SID(&buffer), GB_MSG_AID(&buffer));
     if (MESSAGE_FLAG_TYPE(messageFlags) == MESSAGE_FLAG_EVENT) {
-        status = __invoke_action(client, &buffer);
+        if (GB_MSG_SID(&buffer) == gracht_control_client_protocol.id) {
+            status = __invoke_action(client, &buffer);
+            mtx_unlock(&client->wait_lock);
+        } else {
+            mtx_unlock(&client->wait_lock);
+            status = __invoke_action(client, &buffer);
+        }
+        gracht_arena_free(client->arena, buffer.data, 0);
     } else if (MESSAGE_FLAG_TYPE(messageFlags) == MESSAGE_FLAG_RESPONSE) {
+        // the buffer does not get freed if the response was handled, freeing is then done by
+        // the one who collects the response
         status = __handle_response(client, &buffer);
+        mtx_unlock(&client->wait_lock);
         if (status) {
             gracht_arena_free(client->arena, buffer.data, 0);
-            buffer.data = NULL;
             goto listenForMessage;
         }
+    } else {
+        mtx_unlock(&client->wait_lock);
+        gracht_arena_free(client->arena, buffer.data, 0);
+    }
 
-        // set message id handled
-        messageId = GB_MSG_ID(&buffer);
-
-        // zero the buffer pointer, so it does not get freed, freeing is now handled by
-        // the awaiter
-        buffer.data = NULL;
+    if (count) {
+        goto listenForMessage;
     }
+    return status;
+}
 
-listenOrExit:
-    if (buffer.data) {
-        gracht_arena_free(client->arena, buffer.data, 0);
+int gracht_client_wait_message(
+        gracht_client_t*               client,
+        struct gracht_message_context* context,
+        unsigned int                   flags)
+{
+    GRTRACE(GRSTR("gracht_client_wait_message()"));
+
+    if (!client) {
+        errno = (EINVAL);
+        return -1;
     }
 
+    // check that the message is known
     if (context) {
-        // In case a context was provided the meaning is that we should wait
-        // for a specific message. Make sure that the message we've handled were
-        // the one that was requested.
-        if (messageId != 0 && context->message_id != messageId) {
-            goto listenForMessage;
+        struct gracht_message_descriptor* descriptor;
+
+        mtx_lock(&client->messages_lock);
+        descriptor = gr_hashtable_get(
+                &client->messages,
+                &(struct gracht_message_descriptor) {
+                        .id = context->message_id
+                }
+        );
+        mtx_unlock(&client->messages_lock);
+        if (!descriptor) {
+            errno = ENOENT;
+            return -1;
         }
     }
-    return status;
+    return __wait_messages(client, &context, context ? 1 : 0, 1, flags);
 }
 
 static struct gracht_message_awaiter* __awaiter_new(
@@ -383,32 +418,6 @@ static inline void __await_remove(
     mtx_unlock(&client->awaiters_lock);
 }
 
-static inline void __await_loop(
-        gracht_client_t*                client,
-        struct gracht_message_context** contexts,
-        struct gracht_message_awaiter*  awaiter)
-{
-    while (awaiter->current_count < awaiter->count) {
-        gracht_client_wait_message(client, NULL, GRACHT_MESSAGE_BLOCK);
-
-        // update status
-        mtx_lock(&client->messages_lock);
-        awaiter->current_count = 0;
-        for (int i = 0; i < awaiter->count; i++) {
-            struct gracht_message_descriptor* descriptor = gr_hashtable_get(
-                    &client->messages,
-                    &(struct gracht_message_descriptor) {
-                            .id = contexts[i]->message_id
-                    }
-            );
-            if (descriptor == NULL || MESSAGE_STATUS_EXECUTED(descriptor->status)) {
-                awaiter->current_count++;
-            }
-        }
-        mtx_unlock(&client->messages_lock);
-    }
-}
-
 int gracht_client_await_multiple(
         gracht_client_t*                client,
         struct gracht_message_context** contexts,
@@ -416,8 +425,10 @@ int gracht_client_await_multiple(
         unsigned int                    flags)
 {
     struct gracht_message_awaiter* awaiter;
+    int                            required;
     int                            i;
     bool                           bail;
+    int                            status = 0;
     GRTRACE(GRSTR("gracht_client_await_multiple()"));
     
     if (!client || !contexts || !contextCount) {
@@ -425,6 +436,9 @@ int gracht_client_await_multiple(
         return -1;
     }
 
+    // the number of messages that must be done before we return
+    required = (flags & GRACHT_AWAIT_ALL) ? contextCount : 1;
+
     // create the awaiter
     awaiter = __awaiter_new(client, flags, contextCount);
     if (awaiter == NULL) {
@@ -455,7 +469,7 @@ int gracht_client_await_multiple(
 
     // calculate here whether we can bail early, so we can skip time
     // not adding the awaiter
-    bail = (!(flags & GRACHT_AWAIT_ALL) && awaiter->current_count > 0) || awaiter->current_count == awaiter->count;
+    bail = awaiter->current_count >= required;
 
     // add the awaiter while we hold the message lock to avoid a data-race
     // between those
@@ -473,19 +487,23 @@ int gracht_client_await_multiple(
     // and thus we should just use the awaiter
     if (flags & GRACHT_AWAIT_ASYNC) {
         mtx_lock(&awaiter->mutex);
-        cnd_wait(&awaiter->event, &awaiter->mutex);
+        while (awaiter->current_count < required) {
+            cnd_wait(&awaiter->event, &awaiter->mutex);
+        }
         mtx_unlock(&awaiter->mutex);
     } else {
         // otherwise we are a single threaded application (maybe) and we should also
         // handle the pumping of messages.
-        __await_loop(client, contexts, awaiter);
+        status = __wait_messages(client, contexts, contextCount, required, GRACHT_MESSAGE_BLOCK);
     }
     __await_remove(client, awaiter);
 
 cleanup:
     // cleanup the awaiter
+    cnd_destroy(&awaiter->event);
+    mtx_destroy(&awaiter->mutex);
     free(awaiter);
-    return 0;
+    return status;
 }
 
 int gracht_client_await(gracht_client_t* client, struct gracht_message_context* context, unsigned int flags)
-- 
2.43.0


From be06b4b818d3d29d61353ea738df19ceea5e8edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:13 +0000
Subject: [PATCH 21/21] fix: client: an awaiter is not touched after it was
 destroyed

---
 runtime/client.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runtime/client.c b/runtime/client.c
index 246c9b7..a1d221f 100644
--- a/runtime/client.c
+++ b/runtime/client.c
@@ -763,8 +763,9 @@ static void mark_awaiters(gracht_client_t* client, uint32_t awaiterID)
         return;
     }
     awaiter = entry->awaiter;
-    mtx_unlock(&client->awaiters_lock);
 
+    // hold on to the awaiters lock, the awaiter is destroyed once it has been removed
+    mtx_lock(&awaiter->mutex);
     awaiter->current_count++;
     if (awaiter->flags & GRACHT_AWAIT_ALL) {
         if (awaiter->current_count == awaiter->count) {
@@ -773,6 +774,8 @@ static void mark_awaiters(gracht_client_t* client, uint32_t awaiterID)
     } else {
         cnd_signal(&awaiter->event);
     }
+    mtx_unlock(&awaiter->mutex);
+    mtx_unlock(&client->awaiters_lock);
 }
 
 static uint32_t get_message_id(gracht_client_t* client)
-- 
2.43.0

