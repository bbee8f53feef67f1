// Wrapped system calls of the code under test (linked with -Wl,--wrap): schedule perturbation, crash points,
// fault injection.
#pragma once
#include <stdint.h>
namespace vpw {
// Random pauses before synchronisation operations. permille: probability of a pause; maxUs: longest pause.
void perturb(uint64_t seed, int permille, int maxUs);
void perturbOff();
// SIGKILL this process right before (after=false) or after its n-th wrapped step from now (1-based). 0 = off.
void killAtStep(int64_t n, bool after);
int64_t steps();            // wrapped steps performed so far since reset
void resetSteps();
// only steps by threads of this kind count for killAtStep (all by default)
// Fault injection: the n-th (1-based) resource call from now of a kind in mask, and `count-1` following ones, fail with err.
enum { SHM_OPEN = 1, FTRUNCATE = 2, MMAP = 4, SEM_OPEN = 8, FSTAT = 16, THREAD = 32, ALLRES = 63 };
void failAt(int mask, int64_t n, int64_t count, int err);
void failOff();
int64_t resCalls();         // resource calls of the mask seen since failAt()
int64_t failedCalls();      // injected failures since failAt()
const char* lastFailed();
// Witness for crashes: table (shared memory, n rows of kLockName bytes, one per thread) of the names of the queue locks that the
// threads of this process hold or are acquiring or releasing at the moment.
const int kLockName = 96;
void traceLocks(char* table, int n);
// Number of units of simulated work inside the n-th step etc. may be added here.
}
