// Message passing under the controlled scheduler.  Messages of a channel (source, destination, tag) do not overtake.
// Two legal behaviours of an MPI library are modelled (sched::S->eager): buffered (a send is complete at once, its data
// are taken when it is posted) and rendezvous (the data are taken from the sender's buffer only after the receiver has
// asked for the message and the sender has called MPI again; only then the send is complete).
#include "mpi.h"
#include "../sched/rt.hpp"
#include <cstring>
using namespace sched;

static int sizeOf(MPI_Datatype t) { switch (t) { case MPI_SHORT: case MPI_INT16_T: return 2; case MPI_INT: case MPI_INT32_T: return 4; case MPI_LONG: case MPI_LONG_LONG: case MPI_UNSIGNED_LONG: case MPI_INT64_T: case MPI_UINT64_T: return 8; default: return 1; } }
enum State : uint8_t { FREE, POSTED, MATCHED, READY, DONE };
enum Wait : uint64_t { W_DATA = 1, W_PROBE = 2, W_SENT = 3, W_BARRIER = 4 };
static int me() { return sched::rank(); }
static bool inited = false, finalized = false;
static char library; // the program initialises MPI for one thread at a time
static void check(const char* f, MPI_Comm c, bool query = false) { if (!query) libraryUse(&library); if (!inited || finalized) fail(V_MISUSE, "%s outside of MPI_Init ... MPI_Finalize", f); if (c != MPI_COMM_WORLD) fail(V_MISUSE, "%s: bad communicator", f); }
static void peer(const char* f, int id, bool any) { if ((id < 0 || id >= S->ranks) && !(any && id == MPI_ANY_SOURCE)) fail(V_MISUSE, "%s: bad rank %d", f, id); }

static int match(int dst, int src, int tag) { for (int i = 0; i < S->nmsgs; ++i) { Msg& m = S->msgs[i]; if (m.state != DONE && m.state != MATCHED && !m.taken && m.dst == dst && (src == MPI_ANY_SOURCE || m.src == src) && (tag == MPI_ANY_TAG || m.tag == tag)) return i; } return -1; }
static bool owesProgress(int r) { for (int i = 0; i < S->nmsgs; ++i) if (S->msgs[i].src == r && S->msgs[i].state == MATCHED) return true; return false; }
static void progress() { for (int i = 0; i < S->nmsgs; ++i) { Msg& m = S->msgs[i]; if (m.src == me() && m.state == MATCHED) { if (m.bytes) memcpy(m.data, reinterpret_cast<const void*>(m.ptr), size_t(m.bytes)); m.state = READY; } } }
static bool ready(int t) {
   Thread& x = S->th[t];
   switch (x.obj) {
      case W_DATA: return S->msgs[x.obj2].state == READY || owesProgress(x.proc);
      case W_PROBE: return match(x.proc, int(int32_t(x.obj2 >> 32)), int(int32_t(x.obj2))) >= 0 || owesProgress(x.proc);
      case W_SENT: return S->msgs[x.obj2].state >= READY || owesProgress(x.proc);
      case W_BARRIER: return uint64_t(S->barrierRound) > x.obj2 || owesProgress(x.proc);
   }
   return false;
}
static bool hooked = (recvReady = ready, true);

extern "C" {
int MPI_Init(int*, char***) { if (inited) fail(V_MISUSE, "MPI_Init called twice"); inited = true; return 0; }
int MPI_Init_thread(int* a, char*** b, int, int* p) { if (p) *p = MPI_THREAD_MULTIPLE; return MPI_Init(a, b); }
int MPI_Initialized(int* f) { *f = inited; return 0; }
int MPI_Finalized(int* f) { *f = finalized; return 0; }
int MPI_Abort(MPI_Comm, int c) { fail(V_MISUSE, "MPI_Abort(%d)", c); }
int MPI_Comm_rank(MPI_Comm c, int* r) { check("MPI_Comm_rank", c, true); *r = me(); return 0; }
int MPI_Comm_size(MPI_Comm c, int* n) { check("MPI_Comm_size", c, true); *n = S->ranks; return 0; }

static int post(const char* f, const void* b, int n, MPI_Datatype t, int id, int tag, MPI_Comm c, bool eager) {
   check(f, c); peer(f, id, false); if (n < 0) fail(V_MISUSE, "%s: negative size", f);
   schedulePoint(); progress();
   n *= sizeOf(t); if (S->nmsgs >= MAXMSG || n > MSGBYTES) fail(V_INTERNAL, "message table full (%d messages, %d bytes)", S->nmsgs, n);
   Msg& m = S->msgs[S->nmsgs]; m.src = uint8_t(me()); m.dst = uint8_t(id); m.tag = tag; m.bytes = n; m.ptr = reinterpret_cast<uint64_t>(b); m.taken = 0; m.state = POSTED; m.eager = eager;
   if (eager && n) memcpy(m.data, b, size_t(n));
   return S->nmsgs++;
}
static bool complete(int r) { Msg& m = S->msgs[r]; return m.eager || m.state >= READY; }
int MPI_Isend(const void* b, int n, MPI_Datatype t, int id, int tag, MPI_Comm c, MPI_Request* r) { *r = post("MPI_Isend", b, n, t, id, tag, c, S->eager); return 0; }
int MPI_Issend(const void* b, int n, MPI_Datatype t, int id, int tag, MPI_Comm c, MPI_Request* r) { *r = post("MPI_Issend", b, n, t, id, tag, c, false); return 0; }
static void waitSent(int r) { for (progress(); !complete(r); progress()) blockOn(W_SENT, uint64_t(r)); }
int MPI_Send(const void* b, int n, MPI_Datatype t, int id, int tag, MPI_Comm c) { waitSent(post("MPI_Send", b, n, t, id, tag, c, S->eager)); return 0; }
int MPI_Ssend(const void* b, int n, MPI_Datatype t, int id, int tag, MPI_Comm c) { waitSent(post("MPI_Ssend", b, n, t, id, tag, c, false)); return 0; }

static uint64_t pack(int src, int tag) { return uint64_t(uint32_t(src)) << 32 | uint32_t(tag); }
static void fill(MPI_Status* s, const Msg& m) { if (s) { s->MPI_SOURCE = m.src; s->MPI_TAG = m.tag; s->MPI_ERROR = 0; s->bytes = m.bytes; } }
int MPI_Recv(void* b, int n, MPI_Datatype t, int id, int tag, MPI_Comm c, MPI_Status* s) {
   check("MPI_Recv", c); peer("MPI_Recv", id, true); progress();
   int i; while ((i = match(me(), id, tag)) < 0) { blockOn(W_PROBE, pack(id, tag)); progress(); }
   Msg& m = S->msgs[i]; m.taken = 1;
   if (m.bytes > n * sizeOf(t)) fail(V_MISUSE, "MPI_Recv: message of %d bytes truncated to %d", m.bytes, n * sizeOf(t));
   if (m.eager) m.state = READY;
   else { m.state = MATCHED; progress(); while (m.state != READY) { blockOn(W_DATA, uint64_t(i)); progress(); } }
   if (m.bytes) memcpy(b, m.data, size_t(m.bytes));
   m.state = DONE; fill(s, m); return 0;
}
int MPI_Iprobe(int id, int tag, MPI_Comm c, int* flag, MPI_Status* s) {
   check("MPI_Iprobe", c); peer("MPI_Iprobe", id, true); progress();
   int i = match(me(), id, tag); *flag = i >= 0;
   if (i >= 0) { fill(s, S->msgs[i]); polled(0, 0); } else polled(W_PROBE, pack(id, tag));
   return 0;
}
int MPI_Probe(int id, int tag, MPI_Comm c, MPI_Status* s) {
   check("MPI_Probe", c); peer("MPI_Probe", id, true); progress();
   int i; while ((i = match(me(), id, tag)) < 0) { blockOn(W_PROBE, pack(id, tag)); progress(); }
   fill(s, S->msgs[i]); return 0;
}
int MPI_Test(MPI_Request* r, int* flag, MPI_Status* s) {
   check("MPI_Test", MPI_COMM_WORLD); progress();
   if (*r == MPI_REQUEST_NULL) { *flag = 1; polled(0, 0); return 0; }
   *flag = complete(*r);
   if (*flag) { fill(s, S->msgs[*r]); *r = MPI_REQUEST_NULL; polled(0, 0); } else polled(W_SENT, uint64_t(*r));
   return 0;
}
int MPI_Wait(MPI_Request* r, MPI_Status* s) { check("MPI_Wait", MPI_COMM_WORLD); if (*r == MPI_REQUEST_NULL) return 0; waitSent(*r); fill(s, S->msgs[*r]); *r = MPI_REQUEST_NULL; return 0; }
int MPI_Testall(int n, MPI_Request* r, int* flag, MPI_Status*) {
   check("MPI_Testall", MPI_COMM_WORLD); progress(); *flag = 1; polled(0, 0);
   for (int i = 0; i < n; ++i) if (r[i] != MPI_REQUEST_NULL && !complete(r[i])) { *flag = 0; polled(W_SENT, uint64_t(r[i])); return 0; }
   for (int i = 0; i < n; ++i) r[i] = MPI_REQUEST_NULL;
   return 0;
}
int MPI_Waitall(int n, MPI_Request* r, MPI_Status*) { for (int i = 0; i < n; ++i) MPI_Wait(r + i, nullptr); return 0; }
int MPI_Get_count(const MPI_Status* s, MPI_Datatype t, int* n) { *n = s->bytes / sizeOf(t); return 0; }
int MPI_Barrier(MPI_Comm c) {
   check("MPI_Barrier", c); progress(); int round = S->barrierRound;
   if (++S->barrierCount == S->ranks) { S->barrierCount = 0; ++S->barrierRound; return 0; }
   while (S->barrierRound == round) { blockOn(W_BARRIER, uint64_t(round)); progress(); }
   return 0;
}
int MPI_Finalize() {
   check("MPI_Finalize", MPI_COMM_WORLD); MPI_Barrier(MPI_COMM_WORLD);
   for (int i = 0; i < S->nmsgs; ++i) { Msg& m = S->msgs[i]; if ((m.src == me() || m.dst == me()) && m.state != DONE) fail(V_MISUSE, "MPI_Finalize: a message of %d bytes from rank %d to rank %d (tag %d) was never received", m.bytes, m.src, m.dst, m.tag); }
   finalized = true; return 0;
}
}
