#pragma once
#include <QtCore/QObject>
#include <QtCore/QSharedPointer>
class QObjectPrivate : public QObjectData {
public:
	explicit QObjectPrivate(int version = 0);
	virtual ~QObjectPrivate();
	QtSharedPointer::ExternalRefCountData *shared;
	QString name;
};
