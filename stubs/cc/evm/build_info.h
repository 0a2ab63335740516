#pragma once
#define EVMZERO_TRACY_ENABLED 0
namespace tosca::evmzero::internal {
constexpr const char *kCompilerId = "", *kCompilerVersion = "", *kBuildType = "", *kCompileDefinitions = "", *kCompileOptions = "", *kAssertions = "", *kAsan = "", *kMimalloc = "", *kTracy = "";
}
