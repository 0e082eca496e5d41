#pragma once
#include "pbt.hpp"
#include "Logger.hpp"
#include <functional>
#include <string>
#include <sys/mman.h>
#include <thread>
#include <unistd.h>
#include <vector>
inline std::string captured(std::function<void()> f)
{
    fflush(stdout);
    int saved = dup(1), mem = memfd_create("log", 0);
    dup2(mem, 1);
    f();
    fflush(stdout);
    dup2(saved, 1);
    std::string s;
    char b[65536];
    ssize_t n;
    off_t at = 0;
    while ((n = pread(mem, b, sizeof b, at)) > 0) { s.append(b, n); at += n; }
    return s;
}
using namespace app;
