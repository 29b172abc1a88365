// Declarations shared by all probe units.  Nothing here is ever defined: every function is "user code"
// to the analysis.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" [[noreturn]] void opq_verify_fail() noexcept;
extern "C" void obs_state(int id, bool engaged, const void* p, int size) noexcept;
extern "C" void obs_mark(int n) noexcept;
extern "C" void obs_val(const void* p) noexcept;
#ifndef VERIF_DEFAULT_VERIFY
#define OPTION_VERIFY(expression, message) ((expression) ? static_cast<void>(0) : opq_verify_fail())
#endif
#ifdef VERIF_PRE_OPTION
#include VERIF_PRE_OPTION
#endif
#include <opt/option.hpp>
#include <initializer_list>
#include <new>
#include <utility>
#include <tuple>
typedef unsigned long long U64;
typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32;
