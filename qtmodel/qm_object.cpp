// QObject: object tree, signals and slots (driven by moc's tables), guarded pointers, posted events, meta calls.
#include "qm.h"
#include <QtCore/QObject>
#include <QtCore/QMetaObject>
#include <QtCore/QMetaMethod>
#include <QtCore/QPointer>
#include <QtCore/QTimer>
#include <QtCore/QEvent>
#include <QtCore/QCoreApplication>
#include <QtCore/QStringList>
#include <QtCore/QVariant>
#include "qm_object.h"

// ---------------------------------------------------------------- meta objects
static inline const char *mstr(const QMetaObject *m, uint i) { const QByteArrayData *d = m->d.stringdata + i; return (const char *)d + d->offset; }
enum { PCount = 4, PData = 5, PSignals = 13 };
static inline int localCount(const QMetaObject *m) { return int(m->d.data[PCount]); }
static inline const uint *methodAt(const QMetaObject *m, int i) { return m->d.data + m->d.data[PData] + 5 * i; }
int QMetaObject::methodOffset() const { int o = 0; for (const QMetaObject *m = d.superdata; m; m = m->d.superdata) o += localCount(m); return o; }
int QMetaObject::methodCount() const { return methodOffset() + localCount(this); }
const char *QMetaObject::className() const { return mstr(this, 0); }
bool QMetaObject::inherits(const QMetaObject *o) const Q_DECL_NOTHROW { for (const QMetaObject *m = this; m; m = m->d.superdata) if (m == o) return true; return false; }
QObject *QMetaObject::cast(QObject *o) const { return o && o->metaObject()->inherits(this) ? o : 0; }
const QObject *QMetaObject::cast(const QObject *o) const { return o && o->metaObject()->inherits(this) ? o : 0; }

static const char *typeNameOf(const QMetaObject *m, uint t) {
	if (t & 0x80000000u) return mstr(m, t & 0x7fffffff);
	switch (t) { case 43: return "void"; case 1: return "bool"; case 2: return "int"; case 3: return "uint"; case 4: return "qlonglong"; case 5: return "qulonglong"; case 6: return "double"; case 7: return "QChar"; case 8: return "QVariantMap"; case 9: return "QVariantList"; case 10: return "QString"; case 11: return "QStringList"; case 12: return "QByteArray"; case 17: return "QUrl"; case 19: return "QDateTime"; case 31: return "void*"; case 32: return "long"; case 34: return "char"; case 39: return "QObject*"; case 41: return "QVariant"; case 35: return "ulong"; }
	return "?";
}
const char *QMetaType::typeName(int t) { return typeNameOf(0, uint(t)); }
// A parsed signature: name and argument types as text slices (copied).
struct Sig { QByteArray name; QByteArray args[8]; int n; bool ok; };
static bool idc(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_'; }
static QByteArray normType(const QByteArray &raw) {
	QByteArray t; for (int i = 0; i < raw.size(); ++i) { char c = raw.at(i); if (c == ' ') { if (t.size() && idc(t.at(t.size() - 1)) && i + 1 < raw.size() && idc(raw.at(i + 1))) t.append(' '); } else t.append(c); }
	if (t.startsWith("const ")) { if (t.endsWith('&')) { t = t.mid(6); t.chop(1); } else if (!t.endsWith('*')) t = t.mid(6); }
	if (t == "qint64") return "qlonglong"; if (t == "quint64") return "qulonglong"; if (t == "unsigned int" || t == "quint32") return "uint"; if (t == "long long") return "qlonglong"; if (t == "unsigned long long") return "qulonglong"; if (t == "qint32") return "int";
	return t;
}
static Sig parseSig(const char *s) {
	Sig r; r.n = 0; r.ok = false; const char *p = s; while (*p == ' ') ++p; const char *b = p; while (*p && *p != '(') ++p; if (!*p) return r;
	const char *e = p; while (e > b && e[-1] == ' ') --e; r.name = QByteArray(b, int(e - b)); ++p; int depth = 0; const char *a = p; bool any = false;
	for (;; ++p) { if (!*p) return r; if (*p == '<') ++depth; if (*p == '>') --depth; if (*p != ' ' && *p != ')') any = true; if (depth == 0 && (*p == ',' || *p == ')')) { if (*p == ',' || any) r.args[r.n++] = normType(QByteArray(a, int(p - a))); a = p + 1; if (*p == ')') break; } }
	if (r.n == 1 && r.args[0] == "void") r.n = 0;
	r.ok = true; return r;
}
QByteArray QMetaObject::normalizedType(const char *t) { return normType(QByteArray(t)); }
QByteArray QMetaObject::normalizedSignature(const char *t) { Sig s = parseSig(t); QByteArray r = s.name; r.append('('); for (int i = 0; i < s.n; ++i) { if (i) r.append(','); r.append(s.args[i]); } r.append(')'); return r; }
static bool sigIs(const QMetaObject *m, const uint *md, const Sig &s) {
	if (int(md[1]) != s.n || strcmp(mstr(m, md[0]), s.name.constData())) return false;
	const uint *par = m->d.data + md[2]; for (int i = 0; i < s.n; ++i) if (normType(QByteArray(typeNameOf(m, par[1 + i]))) != s.args[i]) return false;
	return true;
}
enum { KSignal = 4, KSlot = 8, KAny = -1 };
static int findMethod(const QMetaObject *mo, const Sig &s, int kind) {
	if (!s.ok) return -1;
	for (const QMetaObject *m = mo; m; m = m->d.superdata) for (int i = localCount(m) - 1; i >= 0; --i) { const uint *md = methodAt(m, i); if (kind != KAny && int(md[4] & 0xc) != kind) continue; if (sigIs(m, md, s)) return m->methodOffset() + i; }
	return -1;
}
int QMetaObject::indexOfMethod(const char *s) const { return findMethod(this, parseSig(s), KAny); }
int QMetaObject::indexOfSlot(const char *s) const { return findMethod(this, parseSig(s), KSlot); }
int QMetaObject::indexOfSignal(const char *s) const { return findMethod(this, parseSig(s), KSignal); }
static const QMetaObject *ownerOf(const QMetaObject *mo, int &idx) { const QMetaObject *m = mo; while (m && idx < m->methodOffset()) m = m->d.superdata; if (!m || idx - m->methodOffset() >= localCount(m)) return 0; idx -= m->methodOffset(); return m; }
static int originalOf(const QMetaObject *mo, int idx) { for (;;) { int l = idx; const QMetaObject *m = ownerOf(mo, l); if (!m || !(methodAt(m, l)[4] & 0x20)) return idx; --idx; } }
static int argcOf(const QMetaObject *mo, int idx) { int l = idx; const QMetaObject *m = ownerOf(mo, l); return int(methodAt(m, l)[1]); }
QMetaMethod QMetaObject::method(int index) const { QMetaMethod r; int l = index; if (index < 0) return r; const QMetaObject *m = ownerOf(this, l); if (!m) return r; r.mobj = m; r.handle = uint(m->d.data[PData] + 5 * l); return r; }
static int absIndex(const QMetaMethod *mm) { return mm->mobj->methodOffset() + int(mm->handle - mm->mobj->d.data[PData]) / 5; }
int QMetaMethod::methodIndex() const { return mobj ? absIndex(this) : -1; }
int QMetaMethod::parameterCount() const { return mobj ? int(mobj->d.data[handle + 1]) : 0; }
QByteArray QMetaMethod::name() const { return mobj ? QByteArray(mstr(mobj, mobj->d.data[handle])) : QByteArray(); }
QMetaMethod::MethodType QMetaMethod::methodType() const { return MethodType((mobj->d.data[handle + 4] & 0xc) >> 2); }
QMetaMethod::Access QMetaMethod::access() const { return mobj ? Access(mobj->d.data[handle + 4] & 3) : Private; }
QByteArray QMetaMethod::methodSignature() const { QByteArray r = name(); r.append('('); const uint *par = mobj->d.data + mobj->d.data[handle + 2]; for (int i = 0; i < parameterCount(); ++i) { if (i) r.append(','); r.append(typeNameOf(mobj, par[1 + i])); } r.append(')'); return r; }

// ---------------------------------------------------------------- connections
struct Conn { QObject *sender, *receiver; int signal, slot, type, argc; QtPrivate::QSlotObjectBase *fn; bool dead; uint id; Conn *next; };
struct Frame { QObject *receiver, *sender; Frame *prev; };
static Conn *conns, *connTail; static uint connId; static int emitDepth; static Frame *frames;
static void sweep() { if (emitDepth) return; Conn **p = &conns; connTail = 0; while (*p) { if ((*p)->dead) { Conn *d = *p; *p = d->next; if (d->fn) d->fn->destroyIfLastRef(); free((void*)d); } else { connTail = *p; p = &(*p)->next; } } }
static Conn *addConn(const QObject *s, int sig, const QObject *r, int slot, int type, int argc, QtPrivate::QSlotObjectBase *fn) {
	Conn *c = static_cast<Conn *>(malloc(sizeof(Conn))); c->sender = const_cast<QObject *>(s); c->receiver = const_cast<QObject *>(r); c->signal = sig; c->slot = slot; c->type = type; c->argc = argc; c->fn = fn; c->dead = false; c->id = ++connId; c->next = 0;
	if (connTail) connTail->next = c; else conns = c; connTail = c; return c;
}
QMetaObject::Connection::Connection() : d_ptr(0) {}
QMetaObject::Connection::Connection(const Connection &o) : d_ptr(o.d_ptr) {}
QMetaObject::Connection &QMetaObject::Connection::operator=(const Connection &o) { d_ptr = o.d_ptr; return *this; }
QMetaObject::Connection::~Connection() {}
static bool connIdAlive(void *p) { uint id = uint(quintptr(p)); for (Conn *c = conns; c; c = c->next) if (c->id == id) return !c->dead; return false; }
bool QMetaObject::Connection::isConnected_helper() const { return connIdAlive(d_ptr); }
static bool hasConn(const QObject *s, int sig, const QObject *r, int slot) { for (Conn *c = conns; c; c = c->next) if (!c->dead && c->sender == s && c->signal == sig && c->receiver == r && c->slot == slot) return true; return false; }
QMetaObject::Connection QObject::connect(const QObject *s, const char *signal, const QObject *r, const char *member, Qt::ConnectionType type) {
	if (!s || !r || !signal || !member || signal[0] != '2') return QMetaObject::Connection();
	Sig a = parseSig(signal + 1), b = parseSig(member + 1); int si = findMethod(s->metaObject(), a, KSignal); if (si < 0) return QMetaObject::Connection();
	int mi = findMethod(r->metaObject(), b, member[0] == '1' ? KSlot : KSignal); if (mi < 0 || (member[0] != '1' && member[0] != '2')) return QMetaObject::Connection();
	if (b.n > a.n) return QMetaObject::Connection(); for (int i = 0; i < b.n; ++i) if (a.args[i] != b.args[i]) return QMetaObject::Connection();
	si = originalOf(s->metaObject(), si); if (member[0] == '2') mi = originalOf(r->metaObject(), mi);
	if (type & Qt::UniqueConnection) { if (hasConn(s, si, r, mi)) return QMetaObject::Connection(); type = Qt::ConnectionType(type & ~Qt::UniqueConnection); }
	Conn *c = addConn(s, si, r, mi, type, b.n, 0); return QMetaObject::Connection((void *)quintptr(c->id));
}
QMetaObject::Connection QObject::connectImpl(const QObject *s, void **signal, const QObject *r, void **, QtPrivate::QSlotObjectBase *fn, Qt::ConnectionType type, const int *, const QMetaObject *mo) {
	int idx = -1; void *args[] = { &idx, signal }; const QMetaObject *m = mo; for (; m && idx < 0; m = m->d.superdata) { m->d.static_metacall(0, QMetaObject::IndexOfMethod, 0, args); if (idx >= 0) break; }
	if (idx < 0 || !s || !r) { fn->destroyIfLastRef(); return QMetaObject::Connection(); }
	Conn *c = addConn(s, m->methodOffset() + idx, r, -1, type & ~Qt::UniqueConnection, 0, fn); return QMetaObject::Connection((void *)quintptr(c->id));
}
static bool drop(const QObject *s, int sig, const QObject *r, int slot) { bool any = false; for (Conn *c = conns; c; c = c->next) if (!c->dead && c->sender == s && (sig < 0 || c->signal == sig) && (!r || c->receiver == r) && (slot < 0 || c->slot == slot)) { c->dead = true; any = true; } sweep(); return any; }
bool QObject::disconnect(const QObject *s, const char *signal, const QObject *r, const char *member) {
	if (!s || (!r && member)) return false; int si = -1, mi = -1;
	if (signal) { if (signal[0] != '2') return false; si = findMethod(s->metaObject(), parseSig(signal + 1), KSignal); if (si < 0) return false; si = originalOf(s->metaObject(), si); }
	if (member) { mi = findMethod(r->metaObject(), parseSig(member + 1), member[0] == '2' ? KSignal : KSlot); if (mi < 0) return false; if (member[0] == '2') mi = originalOf(r->metaObject(), mi); }
	return drop(s, si, r, mi);
}
bool QObject::disconnectImpl(const QObject *s, void **signal, const QObject *r, void **slot, const QMetaObject *mo) {
	if (!s || (!r && slot)) return false; int sig = -1;
	if (signal) { int idx = -1; void *args[] = { &idx, signal }; const QMetaObject *m = mo; for (; m && idx < 0; m = m->d.superdata) { m->d.static_metacall(0, QMetaObject::IndexOfMethod, 0, args); if (idx >= 0) break; } if (idx < 0) return false; sig = m->methodOffset() + idx; }
	if (!slot) return drop(s, sig, r, -1); bool any = false; for (Conn *c = conns; c; c = c->next) if (!c->dead && c->sender == s && (sig < 0 || c->signal == sig) && c->receiver == r && c->fn && c->fn->compare(slot)) { c->dead = true; any = true; } sweep(); return any;
}
bool QObject::disconnect(const QMetaObject::Connection &x) { uint id = uint(quintptr(x.d_ptr)); bool any = false; for (Conn *c = conns; c; c = c->next) if (c->id == id && !c->dead) { c->dead = true; any = true; } sweep(); return any; }
int QObject::receivers(const char *signal) const { int si = findMethod(metaObject(), parseSig(signal + 1), KSignal), n = 0; if (si < 0) return 0; si = originalOf(metaObject(), si); for (Conn *c = conns; c; c = c->next) if (!c->dead && c->sender == this && c->signal == si) ++n; return n; }

// ---------------------------------------------------------------- posted events
struct Post { int kind; QObject *receiver; int slot; QtPrivate::QSlotObjectBase *fn; int argc; qint64 args[4]; QObject *sender; Post *next; QEvent *ev; };
enum { PCall, PDelete, PEvent };
static Post *posts, *postTail;
static Post *addPost(int kind, QObject *r) { Post *p = static_cast<Post *>(malloc(sizeof(Post))); memset((void*)p, 0, sizeof(Post)); p->kind = kind; p->receiver = r; if (postTail) postTail->next = p; else posts = p; postTail = p; return p; }
static void queueCall(QObject *sender, Conn *c, void **argv) {
	Post *p = addPost(PCall, c->receiver); p->slot = c->slot; p->fn = c->fn; p->sender = sender; p->argc = c->argc; if (c->fn) { c->fn->ref(); }
	if (c->argc) { if (c->argc > 4) sx_unmodelled("queued call with many arguments"); int l = c->slot; const QMetaObject *m = ownerOf(c->receiver->metaObject(), l); const uint *md = methodAt(m, l); const uint *par = m->d.data + md[2];
		for (int i = 0; i < c->argc; ++i) { const char *t = typeNameOf(m, par[1 + i]); int n = int(strlen(t)); if (n && t[n-1] == '*') p->args[i] = *(qint64 *)argv[1+i]; else if (!strcmp(t, "int") || !strcmp(t, "QAbstractSocket::SocketError")) p->args[i] = *(int *)argv[1+i]; else if (!strcmp(t, "bool")) p->args[i] = *(bool *)argv[1+i]; else if (!strcmp(t, "qlonglong")) p->args[i] = *(qint64 *)argv[1+i]; else sx_unmodelled("queued call argument type"); } }
}
static Post *unlinkFirst(int wantDelete) { Post **pp = &posts, *prev = 0; while (*pp) { if (((*pp)->kind == PDelete) == bool(wantDelete)) { Post *p = *pp; *pp = p->next; if (postTail == p) postTail = prev; return p; } prev = *pp; pp = &(*pp)->next; } return 0; }
static void invoke(QObject *receiver, QObject *sender, int slot, QtPrivate::QSlotObjectBase *fn, void **argv) {
	Frame f; f.receiver = receiver; f.sender = sender; f.prev = frames; frames = &f;
	if (fn) { fn->ref(); fn->call(receiver, argv); fn->destroyIfLastRef(); } else QMetaObject::metacall(receiver, QMetaObject::InvokeMetaMethod, slot, argv);
	frames = f.prev;
}
int QMetaObject::metacall(QObject *o, Call c, int i, void **a) { return o->qt_metacall(c, i, a); }
extern "C" void sx_process_events() {
	for (int guard = 0; guard < 400; ++guard) {
		Post *p = unlinkFirst(0);
		if (p) { if (p->kind == PCall) { void *argv[6]; argv[0] = 0; for (int i = 0; i < 4; ++i) argv[1 + i] = &p->args[i]; invoke(p->receiver, p->sender, p->slot, p->fn, argv); if (p->fn) p->fn->destroyIfLastRef(); } else { p->receiver->event(p->ev); delete p->ev; } free((void*)p); continue; }
		p = unlinkFirst(1); if (!p) return; QObject *o = p->receiver; free((void*)p); delete o;
	}
	sx_unmodelled("event loop does not settle");
}
void QCoreApplication::processEvents(QEventLoop::ProcessEventsFlags) { sx_process_events(); }
void QCoreApplication::postEvent(QObject *r, QEvent *e, int) { Post *p = addPost(PEvent, r); p->ev = e; }
bool QCoreApplication::sendEvent(QObject *r, QEvent *e) { return r->event(e); }
void QCoreApplication::sendPostedEvents(QObject *, int) { sx_process_events(); }
static void dropPosts(QObject *o) { Post **pp = &posts; postTail = 0; while (*pp) { Post *p = *pp; if (p->receiver == o) { *pp = p->next; if (p->fn) p->fn->destroyIfLastRef(); free((void*)p); } else { if (p->sender == o) p->sender = 0; postTail = p; pp = &p->next; } } }

void QMetaObject::activate(QObject *sender, const QMetaObject *mo, int local, void **argv) {
	if (sender->d_ptr->blockSig) return; int sig = mo->methodOffset() + local; uint last = connId; bool any = false; for (Conn *c = conns; c; c = c->next) if (c->sender == sender && c->signal == sig && !c->dead) { any = true; break; } if (!any) return;
	void *none[] = { 0 }; if (!argv) argv = none; ++emitDepth;
	for (Conn *c = conns; c && c->id <= last; c = c->next) {
		if (c->dead || c->sender != sender || c->signal != sig) continue;
		if (c->type == Qt::QueuedConnection) { queueCall(sender, c, argv); continue; }
		if (c->type == Qt::BlockingQueuedConnection) { sx_unmodelled("blocking connection"); }
		invoke(c->receiver, sender, c->slot, c->fn, argv);
	}
	--emitDepth; sweep();
}
void QMetaObject::activate(QObject *sender, int offset, int local, void **argv) { for (const QMetaObject *m = sender->metaObject(); m; m = m->d.superdata) if (m->methodOffset() == offset) { activate(sender, m, local, argv); return; } }
void QMetaObject::activate(QObject *sender, int idx, void **argv) { int l = idx; const QMetaObject *m = ownerOf(sender->metaObject(), l); activate(sender, m, l, argv); }

// ---------------------------------------------------------------- QObject
QObjectData::~QObjectData() {}
QMetaObject *QObjectData::dynamicMetaObject() const { sx_unmodelled("dynamic meta object"); return 0; }
QObjectPrivate::QObjectPrivate(int) { q_ptr = 0; parent = 0; isWidget = 0; blockSig = 0; wasDeleted = 0; isDeletingChildren = 0; deleteLaterCalled = 0; postedEvents = 0; metaObject = 0; shared = 0; }
QObjectPrivate::~QObjectPrivate() {}
QObject::QObject(QObject *parent) : d_ptr(new QObjectPrivate) { d_ptr->q_ptr = this; if (parent) setParent(parent); }
QObject::QObject(QObjectPrivate &dd, QObject *parent) : d_ptr(&dd) { d_ptr->q_ptr = this; if (parent) setParent(parent); }
QObject::~QObject() {
	QObjectPrivate *d = static_cast<QObjectPrivate *>(d_ptr.data()); d->wasDeleted = 1; d->blockSig = 0;
	if (d->shared) { d->shared->strongref.storeRelaxed(0); if (!d->shared->weakref.deref()) delete d->shared; d->shared = 0; }
	emit destroyed(this);
	for (Conn *c = conns; c; c = c->next) if (c->sender == this || c->receiver == this) c->dead = true; sweep();
	for (Frame *f = frames; f; f = f->prev) if (f->sender == this) f->sender = 0;
	d->isDeletingChildren = 1; for (int i = 0; i < d->children.size(); ++i) { QObject *c = d->children.at(i); d->children[i] = 0; if (c) { c->d_ptr->parent = 0; delete c; } } d->children.clear(); d->isDeletingChildren = 0;
	if (d->parent) setParent(0);
	dropPosts(this);
}
void QObject::setParent(QObject *p) {
	QObjectData *d = d_ptr.data(); if (p == d->parent) return;
	if (d->parent) { QObjectData *pd = d->parent->d_ptr.data(); int i = pd->children.indexOf(this); if (i >= 0) { if (pd->isDeletingChildren) pd->children[i] = 0; else pd->children.removeAt(i); } }
	d->parent = p; if (p) p->d_ptr->children.append(this);
}
void QObject::deleteLater() { if (d_ptr->deleteLaterCalled) return; d_ptr->deleteLaterCalled = 1; addPost(PDelete, this); }
QObject *QObject::sender() const { for (Frame *f = frames; f; f = f->prev) if (f->receiver == this) { if (!f->sender) return 0; for (Conn *c = conns; c; c = c->next) if (!c->dead && c->sender == f->sender && c->receiver == this) return f->sender; return 0; } return 0; }
int QObject::senderSignalIndex() const { sx_unmodelled("senderSignalIndex"); return -1; }
bool QObject::event(QEvent *) { return false; }
bool QObject::eventFilter(QObject *, QEvent *) { return false; }
void QObject::timerEvent(QTimerEvent *) {}
void QObject::childEvent(QChildEvent *) {}
void QObject::customEvent(QEvent *) {}
void QObject::connectNotify(const QMetaMethod &) {}
void QObject::disconnectNotify(const QMetaMethod &) {}
QString QObject::objectName() const { return static_cast<const QObjectPrivate *>(d_ptr.data())->name; }
void QObject::setObjectName(const QString &n) { static_cast<QObjectPrivate *>(d_ptr.data())->name = n; }
QEvent::QEvent(Type t) : d(0), t(ushort(t)), posted(false), spont(false), m_accept(true) {}
QEvent::~QEvent() {}
int QObject::startTimer(int, Qt::TimerType) { sx_unmodelled("timer"); return 0; }
void QObject::killTimer(int) {}
QtSharedPointer::ExternalRefCountData *QtSharedPointer::ExternalRefCountData::getAndRef(const QObject *o) {
	QObjectPrivate *d = static_cast<QObjectPrivate *>(const_cast<QObjectData *>(o->d_ptr.data())); if (d->shared) { d->shared->weakref.ref(); return d->shared; }
	void *m = malloc(sizeof(ExternalRefCountData)); ExternalRefCountData *x = new (m) ExternalRefCountData(Qt::Uninitialized); x->strongref.storeRelaxed(-1); x->weakref.storeRelaxed(2); x->destroyer = 0; d->shared = x; return x;
}
void QtSharedPointer::ExternalRefCountData::checkQObjectShared(const QObject *) {}
void QtSharedPointer::ExternalRefCountData::setQObjectShared(const QObject *, bool) {}

// ---------------------------------------------------------------- timers and invocation by name
void QTimer::singleShot(int ms, const QObject *r, const char *member) { singleShot(ms, Qt::CoarseTimer, r, member); }
void QTimer::singleShot(int ms, Qt::TimerType, const QObject *r, const char *member) {
	if (!r || !member) return; if (ms != 0) sx_unmodelled("singleShot with a delay");
	int mi = findMethod(r->metaObject(), parseSig(member + 1), member[0] == '2' ? KSignal : KSlot); if (mi < 0) return; Post *p = addPost(PCall, const_cast<QObject *>(r)); p->slot = mi;
}
void QTimer::singleShotImpl(int ms, Qt::TimerType, const QObject *r, QtPrivate::QSlotObjectBase *fn) { if (ms != 0) sx_unmodelled("singleShot with a delay"); Post *p = addPost(PCall, const_cast<QObject *>(r)); p->fn = fn; }
typedef QGenericArgument GA;
static bool doInvoke(QObject *o, int idx, Qt::ConnectionType t, void **argv) {
	if (t == Qt::QueuedConnection) { Conn c; c.receiver = o; c.slot = idx; c.fn = 0; c.argc = argcOf(o->metaObject(), idx); queueCall(0, &c, argv); return true; }
	QMetaObject::metacall(o, QMetaObject::InvokeMetaMethod, idx, argv); return true;
}
bool QMetaObject::invokeMethod(QObject *o, const char *member, Qt::ConnectionType t, QGenericReturnArgument ret, GA a0, GA a1, GA a2, GA a3, GA a4, GA a5, GA a6, GA a7, GA a8, GA a9) {
	if (!o) return false; const GA *as[] = { &a0, &a1, &a2, &a3, &a4, &a5, &a6, &a7, &a8, &a9 }; Sig s; s.ok = true; s.n = 0; s.name = member; void *argv[11]; argv[0] = ret.data();
	for (int i = 0; i < 8 && as[i]->name() && *as[i]->name(); ++i) { s.args[s.n++] = normType(QByteArray(as[i]->name())); argv[1 + i] = as[i]->data(); }
	int idx = findMethod(o->metaObject(), s, KAny); if (idx < 0) return false;
	return doInvoke(o, idx, t, argv);
}
bool QMetaMethod::invoke(QObject *o, Qt::ConnectionType t, QGenericReturnArgument ret, GA a0, GA a1, GA a2, GA a3, GA a4, GA a5, GA a6, GA a7, GA a8, GA a9) const {
	if (!o || !mobj) return false; const GA *as[] = { &a0, &a1, &a2, &a3, &a4, &a5, &a6, &a7, &a8, &a9 }; int n = 0; void *argv[11]; argv[0] = ret.data();
	for (; n < 10 && as[n]->name() && *as[n]->name(); ++n) argv[1 + n] = as[n]->data();
	if (n < parameterCount()) return false;
	return doInvoke(o, absIndex(this), t, argv);
}
// ---------------------------------------------------------------- meta types: only the registration entry points are needed
int QMetaType::registerNormalizedType(const ::QByteArray &, void (*)(void *), void *(*)(void *, const void *), int, TypeFlags, const QMetaObject *) { static int next = 1024; return ++next; }
bool QMetaType::hasRegisteredConverterFunction(int, int) { return true; }
bool QMetaType::registerConverterFunction(const QtPrivate::AbstractConverterFunction *, int, int) { return true; }
void QMetaType::unregisterConverterFunction(int, int) {}
bool QObject::blockSignals(bool b) { bool p = d_ptr->blockSig; d_ptr->blockSig = b; return p; }
