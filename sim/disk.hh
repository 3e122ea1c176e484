// Simulated disk: the real file calls on a scratch directory, with faults decided by the plan.
#ifndef DST_DISK_HH
#define DST_DISK_HH
#include "dst.hh"
namespace dst {
struct Disk {
    bool active;
    std::function<int(const char* path, const char* mode)> onOpen;   ///< errno to fail with, or 0
    std::function<long(size_t n)>                          onWrite;  ///< bytes to accept (short write), or -errno
    std::function<bool()>                                  onRead;   ///< true: the read fails with EIO
    bool crashed;                                                    ///< writes are lost but reported as done
    long opens, writes, bytes;
    Disk() : active(false), onOpen(), onWrite(), onRead(), crashed(false), opens(0), writes(0), bytes(0) {}
};
Disk& disk();
/// Called once by the main process: scratch directories of all its workers are removed when it exits.
void scratchRoot();
/// Enters an empty scratch directory (one per process); removed at process exit.
class Scratch {
  public:
    Scratch();
    ~Scratch();
    const std::string& path() const;
    static void wipe();
};
std::string slurp(const std::string& path, bool* ok = 0);
void spit(const std::string& path, const std::string& text);
bool fileExists(const std::string& path);
}
#endif
