// jsoncpp's JSON_FAIL_MESSAGE builds its message with an ostringstream.  The
// message text is outside every claim; the exception type is preserved.
#ifndef CPPTL_JSON_ASSERTIONS_H_INCLUDED
#define CPPTL_JSON_ASSERTIONS_H_INCLUDED
#include <stdexcept>
#include <cstdlib>
#include <string>
namespace Json { void throwLogicError(std::string const& msg); }
#define JSON_ASSERT(condition) do { if (!(condition)) Json::throwLogicError("assert json failed"); } while (0)
#define JSON_FAIL_MESSAGE(message) do { Json::throwLogicError("json error"); } while (0)
#define JSON_ASSERT_MESSAGE(condition, message) do { if (!(condition)) { JSON_FAIL_MESSAGE(message); } } while (0)
#endif
