// The file handler: which files are served (C14) and how they arrive (C15).
#include "common.h"
#include "HttpHandler.h"
using namespace Pillow;
// ---- the tree: kind d(irectory), f(ile), l(ink to another entry's path)
struct Entry { char kind; const char *path, *what; };
static const Entry tree[] = {
	{ 'd', "pub", "" }, { 'f', "pub/a", "in-a" }, { 'f', "pub/b.txt", "in-b" }, { 'd', "pub/s", "" }, { 'f', "pub/s/c", "in-c" }, { 'd', "pub/s/t", "" }, { 'f', "pub/s/t/d", "in-d" }, { 'f', "pub/e e", "in-e" },
	{ 'd', "pubx", "" }, { 'f', "pubx/a", "OUT-1" }, { 'd', "pub2", "" }, { 'd', "pub2/s", "" }, { 'f', "pub2/s/c", "OUT-2" }, { 'f', "a", "OUT-3" }, { 'f', "pubf", "OUT-4" }, { 'd', "o", "" }, { 'f', "o/a", "OUT-5" }, { 'd', "p", "" }, { 'f', "p/a", "OUT-6" }, { 'f', "pu", "OUT-7" },
	{ 'l', "pub/lf", "o/a" }, { 'l', "pub/ld", "o" }, { 'l', "pub/li", "pub/s" }, { 'l', "pub/lp", "pub" }, { 'l', "pub/lx", "pubx" }, { 'l', "pub/lr", "pubf" }, { 'l', "o/back", "pub/s" }, { 'l', "z", "pub" }, { 'l', "o/pl", "pub/lp" }, { 'l', "pub/lt", "pub/s/t" }, { 'l', "pub/s/lo", "o" }, { 'l', "o/t", "pub/s/t" },
};
static const int entries = int(sizeof tree / sizeof *tree);
static int entryOf(const QByteArray &p) { for (int i = 0; i < entries; ++i) { int n = int(strlen(tree[i].path)); if (p.size() == n && memcmp(p.constData(), tree[i].path, size_t(n)) == 0) return i; } return -1; }
// Where a path (components below the tree's root) really leads: the entry, -1 if nowhere, -2 for the root of the tree.
static int whereIs(const QByteArray &text, int from = -2) {
	int at = from, i = 0, n = text.size();
	while (i < n) {
		if (text.constData()[i] == '/') { ++i; if (at >= 0 && tree[at].kind != 'd') return -1; continue; }
		int e = i; while (e < n && text.constData()[e] != '/') ++e; int len = e - i; const char *c = text.constData() + i; i = e; if (at >= 0 && tree[at].kind != 'd') return -1;
		if (len == 1 && c[0] == '.') continue;
		if (len == 2 && c[0] == '.' && c[1] == '.') { if (at == -2) return -3; const char *p = tree[at].path; const char *s = 0; for (const char *q = p; *q; ++q) if (*q == '/') s = q; at = s ? entryOf(QByteArray(p, int(s - p))) : -2; continue; }
		int next = -1; for (int k = 0; k < entries && next < 0; ++k) { const char *p = tree[k].path; int pl = at == -2 ? 0 : int(strlen(tree[at].path)) + 1; if (pl && (strncmp(p, tree[at].path, size_t(pl - 1)) != 0 || p[pl - 1] != '/')) continue; const char *rest = p + pl; if (int(strlen(rest)) != len || strchr(rest, '/')) continue; bool eq = true; for (int j = 0; j < len && eq; ++j) eq = rest[j] == c[j]; if (eq) next = k; }
		if (next < 0) return -1; int hops = 0; while (tree[next].kind == 'l') { next = whereIs(tree[next].what); if (next < 0 || ++hops > 4) return -1; } at = next;
	}
	return at;
}
static void makeTree() { for (int i = 0; i < entries; ++i) { if (tree[i].kind == 'd') sx_fs_mkdir(tree[i].path); else if (tree[i].kind == 'f') sx_fs_file(tree[i].path, tree[i].what, long(strlen(tree[i].what))); } for (int i = 0; i < entries; ++i) if (tree[i].kind == 'l') sx_fs_link(tree[i].path, tree[i].what); }
static const char *const folders[] = { "pub", "pub/", "pub/s/..", "z", "pub/s", "o/back/../", "pub/ld", "none", "a", "" };
static const char *const texts[] = { "/a", "/b.txt", "/s/c", "/../pubx/a", "/../pub2/s/c", "/ld/a", "/lf", "/li/c", "/lp/a", "/s/../../a", "/%2e%2e/pubx/a", "x/a", "/lx/a", "/s/t/d", "/../pub/a", "/lp/../a", "/ld/back/c", "/e%20e", "/s", "/", "/../pubf", "/..%2fpub/lp/a", "/lr", "/s/./t//d", "/t/d", "/../../pub/a", "/a/", "/a/../a", "/c", "/lf/.", "/lt/../../a", "/lt/../../../a", "/s/lo/../a", "/s/lo/t/../c", "/lt/../c" };
// params: folder, text, symbolic bytes, replaced or inserted, no leading slash
extern "C" void file_path() {
	int f = int(sx_param(0)), k = int(sx_param(1)), n = int(sx_param(2)), ins = int(sx_param(3)); makeTree(); QByteArray root = sx_fs_root(), folder = folders[f]; QString configured = folder.isEmpty() ? QString() : QString::fromUtf8(root + "/" + folder); HttpHandlerFile h(configured);
	int base = folder.isEmpty() ? -1 : whereIs(folder); QByteArray real; if (base >= 0) real = tree[base].path; bool isDir = base >= 0 && tree[base].kind == 'd';
	QByteArray t = texts[k], sym = symText(n, "path", "?#\""); if (t.at(0) != '/') t = "/" + t; int room = t.size() - 1 - (ins ? 0 : n), at = 1; if (room > 0) at = 1 + int(sx_concrete(sx_int(0, room, "at"))); QByteArray p = t.left(at) + sym; int after = at + (ins ? 0 : n); if (after < t.size()) p += t.mid(after);
	Rec a; bool taken = false, asked = false; a.onReady = [&](HttpConnection *c) {
		asked = true; QByteArray path = QByteArray::fromPercentEncoding(QByteArray(c->requestPath().constData(), c->requestPath().size())); for (int i = 0; i < path.size(); ++i) sx_assume((unsigned char)path.constData()[i] < 128);
		taken = h.handleRequest(c); QByteArray full; int found = -1;
		if (base >= 0) found = whereIs(real + path); sx_assume(found != -3); // leaves the tree
		bool inside = false; if (found >= 0 && isDir) { const char *q = tree[found].path; int m = real.size(); inside = strncmp(q, real.constData(), size_t(m)) == 0 && q[m] == '/'; }
		bool serve = inside && tree[found].kind == 'f'; sx_out_int("taken", taken); sx_out_int("size", a.dev.out.size());
		if (!serve) { sx_cover(found >= 0 && !inside ? "outside" : "nothing there"); sx_assert(!taken, "a request that does not lead to a file inside the folder is left to the next handler"); sx_assert(a.dev.out.isEmpty() && a.completed == 0, "and nothing is written"); return; }
		sx_cover("served"); sx_assert(taken, "a file inside the folder is served"); Msg r = readResponse(a.dev.out, 0, false); sx_assert(r.ok && r.complete && r.status() == 200 && same(r.body, tree[found].what), "the file's own content");
	};
	a.dev.feed("GET " + p + " HTTP/1.1\r\n\r\n"); if (!asked) sx_cover("not accepted");
}
// ---- delivery
static const char *const heads[] = { "GET /f HTTP/1.1\r\n\r\n", "HEAD /f HTTP/1.1\r\n\r\n", "GET /f HTTP/1.0\r\n\r\n", "HEAD /f HTTP/1.0\r\n\r\n", "GET /f HTTP/1.0\r\nConnection: keep-alive\r\n\r\n", "HEAD /f HTTP/1.0\r\nConnection: keep-alive\r\n\r\n", "GET /f HTTP/1.1\r\nConnection: close\r\n\r\n", "POST /f HTTP/1.1\r\nContent-Length: 3\r\n\r\nabc" };
static QByteArray content(int size) { QByteArray c(size, 'f'); for (int i = 0; i < size; ++i) c.data()[i] = char('a' + (i * 7 + i / 26) % 26); QByteArray s = symBytes(3, "content"); if (size > 0) c.data()[0] = s.constData()[0]; if (size > 1) c.data()[size - 1] = s.constData()[1]; if (size > 2) c.data()[size / 2] = s.constData()[2]; return c; }
static const int answerSize = 2000;
static QByteArray own(int from, int n) { QByteArray r(n, 'N'); for (int i = 0; i < n; ++i) r.data()[i] = char('0' + (from + i) % 10); return r; }
// A file and then another request on one connection, with any order of draining, input and endings. params: buffer size, file size, request, steps, device that never holds anything back, first step
extern "C" void file_send() {
	int b = int(sx_param(0)), size = int(sx_param(1)), rq = int(sx_param(2)), steps = int(sx_param(3)), eager = int(sx_param(4)), first = int(sx_param(5)); sx_fs_mkdir("pub"); QByteArray want = content(size); sx_fs_file("pub/f", want.constData(), size); HttpHandlerFile h(QString::fromUtf8(QByteArray(sx_fs_root()) + "/pub")); h.setBufferSize(b);
	Rec a; a.dev.slow = !eager; a.dev.eager = eager; HttpConnection *second = 0; int written = 0; bool fed = false, taken = false, ended = false; long secondAt = -1;
	a.onReady = [&](HttpConnection *c) { if (a.ready == 1) { taken = h.handleRequest(c); return; } second = c; HttpHeaderCollection x; x << HttpHeader("Content-Length", "2000"); c->writeHeaders(200, x); c->writeContent(own(0, 10)); written = 10; };
	a.onCompleted = [&](HttpConnection *) { if (secondAt < 0) secondAt = a.dev.out.size(); else second = 0; }; a.onClosed = [&](HttpConnection *) { ended = true; second = 0; };
	fed = first == 9; a.dev.feed(fed ? QByteArray(heads[rq]) + "GET /next HTTP/1.1\r\n\r\n" : QByteArray(heads[rq])); sx_assert(taken, "the file is served");
	for (int i = 0; i < steps; ++i) { int op = i == 0 && first >= 0 && first < 9 ? first : int(sx_concrete(sx_int(0, 6, "op"))); switch (op) {
		case 0: a.dev.drain(1); break; case 1: a.dev.drain(1000000); break; case 2: a.dev.drain(b / 2 + 100); break; case 3: if (!fed) { fed = true; a.dev.feed("GET /next HTTP/1.1\r\n\r\n"); } break; case 4: sx_process_events(); break;
		case 5: if (second && written < answerSize) { int n = written == 10 ? 13 : answerSize - written; QByteArray x = own(written, n); written += n; second->writeContent(x); } break; case 6: if (i == steps - 1 && !ended) { a.dev.close(); ended = true; } break; } }
	bool cut = !a.dev.isOpen() || a.c.state() == HttpConnection::Closed; int guard = 0; while (a.dev.isOpen() && !cut && (a.dev.unsent > 0 || ++guard < 3) && guard < 400) { ++guard; a.dev.drain(1000000); sx_process_events(); if (second && written < answerSize) { QByteArray x = own(written, answerSize - written); written = answerSize; second->writeContent(x); } if (a.c.state() == HttpConnection::Closed) cut = true; }
	sx_process_events(); bool head = rq == 1 || rq == 3 || rq == 5; QByteArray out = a.dev.out; Msg m = readHead(out, 0); sx_out_int("out", out.size()); sx_assert(m.ok && m.status() == 200, "status 200"); sx_assert(decValue(m.value("content-length")) == size, "the file's exact length"); sx_assert(same(m.value("content-type"), "application/octet-stream"), "the media type of its name");
	int have = out.size() - m.used; int part = have < size ? have : size; if (head) { part = 0; sx_cover("head"); } else sx_assert(sx_eq(out.constData() + m.used, want.constData(), part), "the file's bytes, in order"); if (!head && secondAt < 0) { sx_assert(ended, "a file on an open connection arrives whole"); sx_assert(have <= size, "not more than the file"); sx_cover("cut"); return; }
	if (!head) { sx_assert(part == size, "the whole file"); sx_cover(size > b ? "sent in pieces" : "sent at once"); } int next = m.used + part; if (out.size() == next) return;
	Msg r = readHead(out, next); sx_assert(r.ok && r.status() == 200 && fed, "what follows is the next response"); int got = out.size() - r.used; sx_assert(got == written, "exactly the content of the next response"); sx_assert(same(out.mid(r.used), own(0, written)), "nothing of the file in the next response"); sx_cover("next response");
}
// A transfer is cut at any point and the connection object serves another client. params: buffer size, file size, request, how it ends, whether events run in between
extern "C" void file_reuse() {
	int b = int(sx_param(0)), size = int(sx_param(1)), rq = int(sx_param(2)), how = int(sx_param(3)), events = int(sx_param(4)); sx_fs_mkdir("pub"); QByteArray want = content(size); sx_fs_file("pub/f", want.constData(), size); HttpHandlerFile h(QString::fromUtf8(QByteArray(sx_fs_root()) + "/pub")); h.setBufferSize(b);
	Rec a; a.dev.slow = true; MemDevice d2; d2.slow = true; bool second = false; a.onReady = [&](HttpConnection *c) { if (!second) { h.handleRequest(c); return; } HttpHeaderCollection x; x << HttpHeader("Content-Length", "2000"); c->writeHeaders(200, x); };
	a.dev.feed(heads[rq]); int k = int(sx_concrete(sx_int(0, 3, "rounds"))); for (int i = 0; i < k; ++i) { a.dev.drain(i == 1 ? 7 : b); if (i != k - 1 || sx_concrete(sx_int(0, 1, "last"))) sx_process_events(); }
	if (how == 0) a.dev.close(); else if (how == 1) a.c.close(); else { a.dev.drain(1000000); a.dev.close(); } sx_assert(a.c.state() == HttpConnection::Closed, "closed"); int before = a.dev.out.size(); if (events) sx_process_events();
	second = true; a.c.initialize(&d2, &d2); d2.feed("GET /next HTTP/1.1\r\n\r\n"); a.dev.drain(1000000); for (int i = 0; i < 3; ++i) { sx_process_events(); d2.drain(5); } a.c.writeContent(own(0, 25)); sx_process_events(); d2.drain(10); a.c.writeContent(own(25, answerSize - 25)); d2.drain(1000000); sx_process_events();
	sx_assert(a.dev.out.size() == before, "closing stops the transfer"); Msg r = readHead(d2.out, 0); sx_assert(r.ok && r.status() == 200 && decValue(r.value("content-length")) == answerSize, "the next client's response"); sx_assert(same(d2.out.mid(r.used), own(0, answerSize)), "nothing of the file in a later response"); sx_cover("reused");
}
// Everything destroyed in any order while a transfer runs. params: buffer size, file size, what goes
extern "C" void file_gone() {
	int b = int(sx_param(0)), size = int(sx_param(1)), what = int(sx_param(2)); sx_fs_mkdir("pub"); QByteArray want = content(size); sx_fs_file("pub/f", want.constData(), size); HttpHandlerFile *h = new HttpHandlerFile(QString::fromUtf8(QByteArray(sx_fs_root()) + "/pub")); h->setBufferSize(b); Rec *a = new Rec; a->dev.slow = true; a->onReady = [&](HttpConnection *c) { h->handleRequest(c); };
	a->dev.feed(heads[0]); int k = int(sx_concrete(sx_int(0, 2, "rounds"))); for (int i = 0; i < k; ++i) { a->dev.drain(b); if (i != k - 1 || sx_concrete(sx_int(0, 1, "last"))) sx_process_events(); }
	if (what == 0) { delete h; h = 0; for (int i = 0; i < 40; ++i) { a->dev.drain(1000000); sx_process_events(); } Msg m = readResponse(a->dev.out, 0, false); sx_assert(m.ok && m.complete && same(m.body, want), "the transfer does not need the handler any more"); sx_cover("handler gone"); }
	delete a; sx_process_events(); delete h; sx_cover("gone");
}
// Entity tags. params: size, method, how the tag is given, symbolic bytes
extern "C" void file_tag() {
	int size = int(sx_param(0)), head = int(sx_param(1)), how = int(sx_param(2)), n = int(sx_param(3)); sx_fs_mkdir("pub"); QByteArray want = content(size); sx_fs_file("pub/f.html", want.constData(), size); HttpHandlerFile h(QString::fromUtf8(QByteArray(sx_fs_root()) + "/pub")); Rec a; a.onReady = [&](HttpConnection *c) { h.handleRequest(c); };
	a.dev.feed("GET /f.html HTTP/1.1\r\n\r\n"); Msg m = readResponse(a.dev.out, 0, false); sx_assert(m.ok && m.complete && m.status() == 200 && same(m.body, want), "the file"); sx_assert(same(m.value("content-type"), "text/html"), "its media type"); QByteArray tag = m.value("etag"); sx_assert(!tag.isEmpty() && m.count("etag") == 1, "an entity tag");
	QByteArray sym = symText(n, "tag"), given; if (how == 0) given = tag; else if (how == 1) given = sym; else if (how == 2) { given = sym + tag.mid(n); } else if (how == 3) given = tag + sym; else given = tag.left(tag.size() - n); bool equal = same(given, tag); QByteArray name = how == 0 ? "if-NONE-match" : "If-None-Match";
	int from = a.dev.out.size(); a.dev.feed(QByteArray(head ? "HEAD" : "GET") + " /f.html HTTP/1.1\r\n" + name + ": " + given + "\r\n\r\n"); sx_assume(a.ready == 2); Msg r = readResponse(a.dev.out, from, head || equal); sx_assert(r.ok && r.complete && r.used == a.dev.out.size(), "one response");
	if (equal) { sx_cover("not modified"); sx_assert(r.status() == 304 && r.body.isEmpty(), "304 without body for a matching tag"); return; } sx_cover("modified"); sx_assert(r.status() == 200 && decValue(r.value("content-length")) == size, "any other tag gets the file"); if (!head) sx_assert(same(r.body, want), "the file again"); else sx_assert(a.dev.out.size() - r.used == 0, "no body for HEAD"); sx_assert(same(r.value("etag"), tag), "the same tag");
	static const int offsets[] = { 0, 1, 15, 16, 63, 64, 511, 512, 1023, 1024, 4095, 4096, 65535, 65536 }; int at = -1; for (int i = 0; i < 15; ++i) { int o = i < 14 ? offsets[i] : size - 1; if (o >= 0 && o < size) { QByteArray other = want; other.data()[o] = char(other.constData()[o] ^ 1); sx_fs_file("pub/f.html", other.constData(), size); from = a.dev.out.size(); a.dev.feed("GET /f.html HTTP/1.1\r\nIf-None-Match: " + tag + "\r\n\r\n"); r = readResponse(a.dev.out, from, false); sx_assert(r.ok && r.status() == 200 && same(r.body, other), "a file changed anywhere is sent again"); at = o; } } if (at >= 0) sx_cover("changed");
	QByteArray changed = want + "!"; sx_fs_file("pub/f.html", changed.constData(), changed.size()); from = a.dev.out.size(); a.dev.feed("GET /f.html HTTP/1.1\r\nIf-None-Match: " + tag + "\r\n\r\n"); r = readResponse(a.dev.out, from, false); sx_assert(r.ok && r.status() == 200 && same(r.body, changed), "a changed file is sent again");
}
