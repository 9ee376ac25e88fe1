// Controlled scheduler linked into the real program.
// Only one thread runs at a time; every synchronisation operation is a scheduling point whose outcome is taken from a
// recorded list of decisions (and 0 afterwards).  All scheduler state lives in memory shared with the explorer.
#pragma once
#include <cstdint>
#include <cstddef>

namespace sched {
enum { MAXT = 24, MAXPOINTS = 6000, MAXALT = 12, MAXMUTEX = 1024, MAXMSG = 600, MSGBYTES = 240 };
enum Kind : uint8_t { K_SCHED = 1, K_SIGNAL = 2 };
enum OpKind : uint8_t { OP_NONE, OP_START, OP_POINT, OP_LOCK, OP_CONDWAIT, OP_TIMEDWAIT, OP_JOIN, OP_GUARD, OP_RECV, OP_FUTEX, OP_FINISHED };
enum Verdict { V_RUNNING = 0, V_OK = 1, V_DEADLOCK, V_HORIZON, V_RACE, V_DIVERGED, V_INTERNAL, V_UAF, V_MISUSE };
struct Point { uint8_t kind, n, choice, running; uint8_t cost[MAXALT]; };
struct Thread { OpKind op; uint8_t timedOut; uint8_t proc; uint8_t yielded; uint64_t obj, obj2; int futex; };
struct Mutex { uint64_t key; int owner; int count; };
// a message between ranks (../mpi/mpi.cpp)
struct Msg { uint8_t src, dst, state, taken; int tag, bytes, eager; uint64_t ptr; char data[MSGBYTES]; };
struct Shared {
   int active;
   int bound, spurious;           // spurious wake-ups allowed per execution
   int prefixLen; uint8_t prefix[MAXPOINTS];
   int npoints; Point pts[MAXPOINTS];
   long ops; long horizon;
   int nthreads; Thread th[MAXT]; int current; int maxLive;
   Mutex mx[MAXMUTEX];
   int verdict; char msg[3000];
   int spuriousUsed; int streak; long accesses;
   int raceDetection;
   int ranks, delayBounded;       // several processes; every deviation from the default schedule costs one
   int eager, nmsgs, barrierCount, barrierRound; Msg msgs[MAXMSG];
};
extern Shared* S;
Shared* createShared();
void reset(Shared*);              // before forking an execution
void begin(int rank = 0);         // in the child, before the program's main
void finish();                    // in the child, when the program is about to end
const char* verdictName(int v);
void schedulePoint();             // plain scheduling point (used by mocks)
// for the message passing stand-in
int rank();
[[noreturn]] void fail(int verdict, const char* fmt, ...);
void blockOn(uint64_t what, uint64_t arg);  // until recvReady says so
void libraryUse(const void* lib);            // calls of different threads of a process have to be ordered
void polled(uint64_t what, uint64_t arg);   // outcome of a poll: what a following pause has to wait for (0: nothing)
extern bool (*recvReady)(int thread);
}
