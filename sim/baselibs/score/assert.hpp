// Stand-in for score_baselibs <score/assert.hpp>: a failed contract ends the (simulated) process.
#pragma once
#include "score/utility.hpp"
#include <cstdint>
extern "C" [[noreturn]] void sim_contract_failure(const char* kind, const char* cond, const char* file, int line);
#define SIM_CONTRACT(kind, cond) \
    (static_cast<bool>(cond) ? static_cast<void>(0) : ::sim_contract_failure(kind, #cond, __FILE__, __LINE__))
#define SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD(...) SIM_CONTRACT("assert", (__VA_ARGS__))
#define SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD_MESSAGE(c, m) (static_cast<void>(m), SIM_CONTRACT("assert", c))
#define SCORE_LANGUAGE_FUTURECPP_ASSERT(...) SIM_CONTRACT("assert", (__VA_ARGS__))
#define SCORE_LANGUAGE_FUTURECPP_ASSERT_MESSAGE(c, m) (static_cast<void>(m), SIM_CONTRACT("assert", c))
#define SCORE_LANGUAGE_FUTURECPP_ASSERT_DBG(...) SIM_CONTRACT("assert", (__VA_ARGS__))
#define SCORE_LANGUAGE_FUTURECPP_ASSERT_DBG_MESSAGE(c, m) (static_cast<void>(m), SIM_CONTRACT("assert", c))
#define SCORE_LANGUAGE_FUTURECPP_PRECONDITION_PRD(...) SIM_CONTRACT("precondition", (__VA_ARGS__))
#define SCORE_LANGUAGE_FUTURECPP_PRECONDITION_PRD_MESSAGE(c, m) (static_cast<void>(m), SIM_CONTRACT("precondition", c))
#define SCORE_LANGUAGE_FUTURECPP_PRECONDITION(...) SIM_CONTRACT("precondition", (__VA_ARGS__))
#define SCORE_LANGUAGE_FUTURECPP_PRECONDITION_MESSAGE(c, m) (static_cast<void>(m), SIM_CONTRACT("precondition", c))
#define SCORE_LANGUAGE_FUTURECPP_PRECONDITION_DBG(...) SIM_CONTRACT("precondition", (__VA_ARGS__))
#define SCORE_LANGUAGE_FUTURECPP_PRECONDITION_DBG_MESSAGE(c, m) (static_cast<void>(m), SIM_CONTRACT("precondition", c))
#define SCORE_LANGUAGE_FUTURECPP_UNREACHABLE() ::sim_contract_failure("unreachable", "", __FILE__, __LINE__)
#define SCORE_LANGUAGE_FUTURECPP_UNREACHABLE_MESSAGE(m) ::sim_contract_failure("unreachable", m, __FILE__, __LINE__)
