// stands for the libassert library: an assertion that reports to the analysis
#pragma once
extern "C" [[noreturn]] void opq_verify_fail() noexcept;
#define LIBASSERT_ASSUME(expression, ...) ((expression) ? static_cast<void>(0) : opq_verify_fail())
