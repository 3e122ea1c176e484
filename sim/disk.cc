#include "disk.hh"
#include <cerrno>
#include <cstdlib>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>
#include <fcntl.h>
namespace dst {
Disk& disk() { static Disk d; return d; }
namespace {
std::string base; pid_t owner = 0; char home[4096];
void removeAll(const std::string& d, bool self) {
    DIR* h = opendir(d.c_str());
    if (h) {
        while (dirent* e = readdir(h)) {
            const std::string n = e->d_name; if (n == "." || n == "..") continue;
            const std::string p = d + "/" + n; struct stat st;
            if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) removeAll(p, true); else unlink(p.c_str());
        }
        closedir(h);
    }
    if (self) rmdir(d.c_str());
}
pid_t root = 0;
void atEnd() {
    if (getpid() != root) return;
    const std::string pre = "dst-scratch-" + std::to_string(root) + "-";
    std::vector<std::string> mine;
    if (DIR* h = opendir("/tmp")) {
        while (dirent* e = readdir(h)) if (std::string(e->d_name).compare(0, pre.size(), pre) == 0) mine.push_back(std::string("/tmp/") + e->d_name);
        closedir(h);
    }
    for (auto& m : mine) removeAll(m, true);
}
}
void scratchRoot() { root = getpid(); atexit(atEnd); }
Scratch::Scratch() {
    if (base.empty() || owner != getpid()) {
        std::string t = "/tmp/dst-scratch-" + std::to_string(root) + "-XXXXXX";
        if (!mkdtemp(&t[0])) throw std::runtime_error("cannot make a scratch directory");
        base = t; owner = getpid();
    }
    disk() = Disk();
    wipe();
    if (!getcwd(home, sizeof home)) home[0] = 0;
    if (chdir(base.c_str()) != 0) throw std::runtime_error("cannot enter the scratch directory");
}
Scratch::~Scratch() { disk() = Disk(); if (home[0] && chdir(home) != 0) {} }
const std::string& Scratch::path() const { return base; }
void Scratch::wipe() { if (!base.empty() && owner == getpid()) removeAll(base, false); }
std::string slurp(const std::string& p, bool* ok) {
    std::string s; if (ok) *ok = false;
    int fd = ::open(p.c_str(), O_RDONLY); if (fd < 0) return s;
    char b[8192]; ssize_t n; bool good = true;
    while ((n = ::read(fd, b, sizeof b)) > 0) s.append(b, n);
    if (n < 0) good = false;
    ::close(fd); if (ok) *ok = good; return s;
}
extern "C" ssize_t __real_write(int, const void*, size_t);
void spit(const std::string& p, const std::string& t) {
    int fd = ::open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (fd < 0) return;
    if (__real_write(fd, t.data(), t.size()) < 0) {}
    ::close(fd);
}
bool fileExists(const std::string& p) { struct stat st; return lstat(p.c_str(), &st) == 0; }
}
using dst::disk;
extern "C" {
FILE*   __real_fopen(const char*, const char*);
FILE*   __real_fopen64(const char*, const char*);
ssize_t __real_writev(int, const struct iovec*, int);
ssize_t dst_real_write(int fd, const void* b, size_t n) { return dst::__real_write(fd, b, n); }
static bool openFault(const char* p, const char* m) {
    if (!disk().active) return false;
    ++disk().opens;
    if (disk().onOpen) { const int e = disk().onOpen(p, m); if (e) { errno = e; return true; } }
    return false;
}
FILE* __wrap_fopen(const char* p, const char* m)   { return openFault(p, m) ? 0 : __real_fopen(p, m); }
FILE* __wrap_fopen64(const char* p, const char* m) { return openFault(p, m) ? 0 : __real_fopen64(p, m); }
size_t  __real_fread(void*, size_t, size_t, FILE*);
size_t  __wrap_fread(void* b, size_t z, size_t n, FILE* f) { if (disk().active && disk().onRead && disk().onRead()) { errno = EIO; return 0; } return __real_fread(b, z, n, f); }
size_t  __real___fread_chk(void*, size_t, size_t, size_t, FILE*);
size_t  __wrap___fread_chk(void* b, size_t l, size_t z, size_t n, FILE* f) { if (disk().active && disk().onRead && disk().onRead()) { errno = EIO; return 0; } return __real___fread_chk(b, l, z, n, f); }
ssize_t __wrap_write(int fd, const void* b, size_t n) {
    if (!disk().active || fd <= 2) return dst::__real_write(fd, b, n);
    ++disk().writes;
    if (disk().crashed) return n;
    size_t m = n;
    if (disk().onWrite) { const long r = disk().onWrite(n); if (r < 0) { errno = static_cast<int>(-r); return -1; } m = std::min(n, static_cast<size_t>(r)); }
    disk().bytes += m;
    return m == 0 && n > 0 ? (errno = ENOSPC, -1) : dst::__real_write(fd, b, m);
}
ssize_t __wrap_writev(int fd, const struct iovec* v, int c) {
    if (!disk().active || fd <= 2) return __real_writev(fd, v, c);
    ssize_t done = 0;
    for (int i = 0; i < c; ++i) {
        const ssize_t r = __wrap_write(fd, v[i].iov_base, v[i].iov_len);
        if (r < 0) return done ? done : -1;
        done += r;
        if (static_cast<size_t>(r) < v[i].iov_len) break;
    }
    return done;
}
}
