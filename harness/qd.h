// shared helpers of the harnesses
#pragma once
#include "mc.h"
#include "tools/Exception.h"
namespace qd {
inline std::string describe() { try { throw; } catch (QDLIB::Exception& e) { return e.GetMessage(); } catch (...) { return "unknown"; } }
struct Init { Init() { mc::g().describe = describe; } };
static Init init_;
}
