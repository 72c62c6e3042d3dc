// Prelude for every translation unit of the machinery (the project's own build
// adds `-include cstdint`; gcc's <stddef.h> puts nullptr_t in the global
// namespace, clang's does not, and the headers of /repo rely on it).
#pragma once
#include <cstdint>
#include <cstddef>
using std::nullptr_t;
