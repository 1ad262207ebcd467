// Common declarations of the Qt model (definitions of Qt's out-of-line functions, compiled against the real Qt headers
// and executed symbolically together with /repo's code). Validated by native replays against the real Qt libraries.
#pragma once
#define QT_DISABLE_DEPRECATED_BEFORE 0
#include <string.h>
#include <stdlib.h>
#include <stdarg.h>
extern "C" {
void sx_unmodelled(const char*);
long sx_concrete(long);
void sx_note(const char*, long);
}
