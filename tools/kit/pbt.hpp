// Just enough of the engine's interface for world.hpp, for stand-alone demonstrations.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <cstring>
#include <exception>
#include <new>
#include <sys/resource.h>
namespace pbt
{
inline std::string fmt(char const* f, ...) { char b[2048]; va_list a; va_start(a, f); std::vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
[[noreturn]] inline void fail(std::string const& m) { std::printf("DEMO: broken: %s\n", m.c_str()); std::fflush(stdout); std::_Exit(1); }
}
#define CHECK(C) do { if (!(C)) pbt::fail(std::string(#C) + " (line " + std::to_string(__LINE__) + ")"); } while (0)
