// Everything from Qt that the repository, the shim and the harnesses use (precompiled in both builds).
#pragma once
#define QT_DISABLE_DEPRECATED_BEFORE 0
#include <QtCore/QtCore>
#include <QtNetwork/QtNetwork>
#include <functional>
