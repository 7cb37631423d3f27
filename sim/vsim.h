// Interface between the simulator executable and the harness shared objects.
#ifndef VSIM_H
#define VSIM_H
#include <stdint.h>
#define VS_MAXARG 10
struct VsOp {
    int opc;                 // opcode, from h_opcode()
    int nargs;
    long long a[VS_MAXARG];
};
struct VsObj {
    int kind;                // from h_objkind()
    long long init;
};
struct VsScen {
    int nobj;
    VsObj const* obj;
    int nthr;                // threads are 1..nthr
    int const* nops;         // [nthr+1]
    VsOp const* const* ops;  // [nthr+1]
};
extern "C" {
// ---- provided by the simulator
int  vs_self();                               // current simulated thread
void vs_call(int k);                          // operation k of this thread starts
void vs_ret(int k, long long res);            // ... and ends with this result
void vs_ret2(int k, long long res, long long aux);
void vs_note(int what, long long a, long long b);      // observation inside an operation
void vs_settle();                             // wait until nothing else can run
void vs_open(int gate);
void vs_await(int gate);
void vs_jump(long long ns);                   // sets the system clock forward
void vs_sleep(long long ns);                  // sleep in virtual time
void vs_bad(char const* what);                // forbidden event; ends the execution
void vs_inject(char const* fn, int err, int skip, int from_thread); // make a later OS call fail
long long vs_now();                           // virtual time, ns since the start
long long vs_real_base();                     // CLOCK_REALTIME at virtual time 0 (ns)
long long vs_steady_base();
void vs_alloc(int on);                         // memory is allocated on behalf of the library, and may be refused
void vs_watch(int on);                        // log absolute OS deadlines as notes
// ---- provided by the harness
int  h_opcode(char const* name);
int  h_objkind(char const* name);
void h_setup(VsScen const* s);                // runs as thread 0 before the others
void h_run(int tid, VsScen const* s);         // body of thread tid
void h_teardown(VsScen const* s);             // runs as thread 0 after all others ended normally
void h_touch_tls();
}
#endif
