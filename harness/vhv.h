// vh.h plus validate.h with the exit hook turned into an exception
#pragma once
#include "vh.h"
namespace vh { inline std::ostringstream* g_capture = nullptr; inline std::string g_first; }   // text written when the first verdict is given
namespace Settings { [[noreturn]] inline void exitVerdict(int code) { if (vh::g_capture && vh::g_first.empty()) vh::g_first = vh::g_capture->str(); throw vh::Exit{code}; } }
#ifdef VH_UPPER
namespace Settings { constexpr bool DEFAULT_CASE_LOWER = false; constexpr long double DEFAULT_EPS = 1e-3L; }
#endif
#ifndef VHV_NO_INCLUDE
#include "validate.h"
#define VHV_MAIN int main(int argc, char** argv) { Generator::init(1, argv); return vh::run(argc, argv); }
#endif
