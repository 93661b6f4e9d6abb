// Included before the tools: source files come from the harness, not from disk.
#pragma once
#include "nsasm/file.h"
namespace nsasm {
ErrorOr<File> HarnessFile(const std::string& path);
}
#define OpenFile HarnessFile
