// Stand-in for KOGNAC's logging header (KOGNAC is not installed here): messages are dropped.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <chrono>
#define TRACEL 0
#define DEBUGL 1
#define INFOL 2
#define WARNL 3
#define ERRORL 4
struct VpNoLog { template <class T> VpNoLog& operator<<(const T&) { return *this; } };
#define LOG(level) VpNoLog()
