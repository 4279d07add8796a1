// A scratch configuration file that lives in memory only (memfd), so checks leave nothing on disk.
#pragma once
#include <sys/mman.h>
#include <unistd.h>
#include <cstdio>
#include <stdexcept>
#include <string>
namespace mc
{
struct MemFile
{
    int fd;
    std::string path;
    explicit MemFile(const std::string& text)
    {
        fd = memfd_create("mc", 0);
        if (fd < 0 || write(fd, text.data(), text.size()) != (ssize_t)text.size())
            throw std::runtime_error("memfd");
        path = "/proc/self/fd/" + std::to_string(fd);
    }
    ~MemFile() { close(fd); }
    MemFile(const MemFile&) = delete;
};
inline std::string num(double d)
{
    char b[40];
    snprintf(b, sizeof b, "%.17g", d);
    return b;
}
// silence std::cout of the code under test
struct Quiet
{
    std::streambuf* old;
    Quiet() : old(std::cout.rdbuf(nullptr)) {}
    ~Quiet() { std::cout.rdbuf(old); }
};
}
