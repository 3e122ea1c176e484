#include <cstdarg>
#include <cstdio>
#include <string>
#include <vector>
namespace dst { std::vector<std::string>& published() { static std::vector<std::string> v; return v; } }
extern "C" int message_publish(int level, const char* format, ...) {
    char b[1024]; va_list ap; va_start(ap, format); vsnprintf(b, sizeof b, format, ap); va_end(ap);
    if (dst::published().size() < 100000) dst::published().push_back(std::to_string(level) + ":" + b);
    return 0;
}
