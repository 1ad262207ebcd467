#pragma once
#include <QtCore/QIODevice>
#include "qm_object.h"
class QIODevicePrivate : public QObjectPrivate {
public:
	QIODevicePrivate(); virtual ~QIODevicePrivate();
	QIODevice::OpenMode mode; qint64 at; QString err;
};
