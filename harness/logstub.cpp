// console logging and process statistics are outside every property: empty bodies
#include "Log.h"
FIELD3D_NAMESPACE_OPEN
namespace Msg { void print(Severity, const std::string &) {} void setVerbosity(int) {} }
std::string bytesToString(int64_t) { return std::string("bytes"); }
size_t currentRSS() { return 0; }
FIELD3D_NAMESPACE_SOURCE_CLOSE
