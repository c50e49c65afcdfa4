// Programs of engine T and the history they record.  Plain types only: shared by the instrumented
// harness and the uninstrumented oracle.
#pragma once
#include <cstdint>
#include <cstddef>

enum OpK : uint8_t {
    NOP, EMIT, CONN, DISC, SDR, DF, BLK, UNB, BKR, BKE, QRY, QRB, DROP, KILL, VAL, SCON, NOPK
};
// EMIT(signal) CONN(uid) DISC(uid) SDR(uid: a scoped_connection for it is destroyed) DF(group: disconnect
// by equal callable) BLK UNB (uid) BKR BKE (uid: connection_blocker created / destroyed) QRY (uid: connected())
// QRB (uid: blocked()) DROP(object: this thread's owner is released) KILL(signal: destroyed) VAL(uid: valid())
// SCON(uid): connected through connect_scoped, the handle is kept until SDR or the end
extern const char* const opname[NOPK];

enum { MAXU = 6, MAXOPS = 3, MAXTH = 3, MAXLOG = 400, MAXSIG = 2 };

struct OpD { uint8_t k, a; };
struct ProgD {
    uint8_t nt;                    // threads
    uint8_t nsig;                  // signals
    uint8_t ninit;                 // slots 0..ninit-1 are connected before the threads start
    uint8_t kind[MAXU];            // 0 plain callable, 1 tracked (shared_ptr), 2 tracked (weak_ptr); object = uid
    uint8_t sig[MAXU];             // signal of the slot
    uint8_t grp[MAXU];             // callables of one group are equal
    uint8_t blocked[MAXU];         // initially blocked
    OpD act[MAXU];                 // performed by the slot when it is invoked (not nested deeper than maxdepth)
    OpD dact[MAXU];                // performed when the slot's callable is destroyed
    uint8_t maxdepth;
    OpD op[MAXTH][MAXOPS];
    uint8_t main_owner[MAXU];      // 1: the main thread keeps an owner of object uid
    uint32_t cats;                 // violations to report
};

enum Ev : uint8_t { E_BEGIN, E_END, E_INV, E_RET, E_DEAD, E_FIN, E_FCONN, E_FLIVE, E_FEMIT, E_FINV, E_FEND, E_KCONN, E_KDISC, E_KLIVE, E_KVALID };
struct LogE { uint8_t e, t, op, a, b; int8_t r; int16_t v; };  // t thread, op operation number, a argument

// categories of violations
enum : uint32_t {
    V_SNAPSHOT = 1,      // an emission is not explained by one snapshot                     C06
    V_LINEAR   = 2,      // final slots / results are not those of any sequential order      C07
    V_ONCE     = 4,      // exactly-once disconnection                                       C08
    V_STAY     = 8,      // invoked or connected after a completed disconnect                C08
    V_BLOCK    = 16,     // block state                                                      C13
    V_TRACK    = 32,     // tracked object                                                   C10
    V_CALLABLE = 64,     // callable retained or destroyed early                             C11
    V_ARG      = 128,    // argument                                                         C04
    V_RESULT   = 256,    // result of an emission                                            C03
    V_KILL     = 512,    // after the destruction of the signal                              C15
    V_HANDLE   = 1024,   // handle queries                                                   C12
    V_REENTER  = 2048,   // re-entrant behaviour                                             C05
    V_ALL      = 0xffff
};

extern "C" {
void log_reset(void);
int  log_op(int t, int k, int a);                 // new operation, logs E_BEGIN; returns its number
void log_ev(int e, int t, int op, int a, int r, int v);
void log_evb(int e, int a, int b);
void live_add(int uid, int d);                    // instances of the callable of slot uid
int  live_get(int uid);
void obj_add(int uid, int d);
int  obj_get(int uid);
void harness_fail(uint32_t cat, const char* msg); // recorded and reported by the oracle
const char* oracle_check(const ProgD* p);         // memoised
void oracle_init(void);
void oracle_new_program(void);
uint64_t oracle_histories(void);                  // distinct histories of the current program
uint64_t oracle_calls(void);
void log_dump(const ProgD* p, void* file);
}
