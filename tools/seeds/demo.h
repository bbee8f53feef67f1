#include "veigar/veigar.h"
#include "message_queue.h"
#include "semaphore.h"
#include "shared_memory.h"
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <string>
#include <thread>
#include <vector>
#include <dirent.h>
#include <fcntl.h>
#include <malloc.h>
#include <signal.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace veigar;
static std::string N(const char* s) { return "vpdemo" + std::to_string((long)getpid()) + "_" + s; }
static void ms(int n) { std::this_thread::sleep_for(std::chrono::milliseconds(n)); }
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
#define REQUIRE(c, ...) do { if (!(c)) { printf("BROKEN: " __VA_ARGS__); printf("\n"); fflush(stdout); _exit(1); } } while (0)
static int shmNames(const std::string& s) {
    int n = 0;
    DIR* d = opendir("/dev/shm");
    if (!d) return 0;
    while (dirent* e = readdir(d)) if (strstr(e->d_name, s.c_str())) n++;
    closedir(d);
    return n;
}

