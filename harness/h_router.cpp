// The router: which route is invoked (C18) and how its parameters are bound (C19).
#include "common.h"
#include "HttpHandler.h"
#include "HttpHandlerSimpleRouter.h"
using namespace Pillow;
static const HttpHeaderCollection noHeaders;
// ---- what a pattern means: plain text, `:name` a non-empty word, `*name` any text
struct Piece { char kind; QString text; };
static bool nameChar(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_'; }
static QVector<Piece> piecesOf(const char *p) {
	QVector<Piece> r; QString t; int n = int(strlen(p));
	for (int i = 0; i < n;) { int j = i + 1; if (p[i] == ':' || p[i] == '*') while (j < n && nameChar(p[j])) ++j; if ((p[i] == ':' || p[i] == '*') && j > i + 1) { if (!t.isEmpty()) r.append(Piece{ 't', t }); t = QString(); r.append(Piece{ p[i], QString::fromLatin1(p + i + 1, j - i - 1) }); i = j; } else { t += QLatin1Char(p[i]); ++i; } }
	if (!t.isEmpty()) r.append(Piece{ 't', t }); return r;
}
static bool wordChar(ushort c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_' || c == '-'; }
static bool matches(const QVector<Piece> &p, int k, const ushort *s, int i, int n) {
	if (k == p.size()) return i == n; const Piece &x = p.at(k);
	if (x.kind == 't') { int m = x.text.size(); if (i + m > n) return false; const ushort *t = (const ushort *)x.text.constData(); for (int j = 0; j < m; ++j) if (s[i + j] != t[j]) return false; return matches(p, k + 1, s, i + m, n); }
	if (x.kind == '*') { for (int j = i; j <= n; ++j) if (matches(p, k + 1, s, j, n)) return true; return false; }
	for (int j = i; j < n && wordChar(s[j]); ++j) if (matches(p, k + 1, s, j + 1, n)) return true; return false;
}
static bool matches(const char *pattern, const QString &path) { QVector<Piece> p = piecesOf(pattern); return matches(p, 0, (const ushort *)path.constData(), 0, path.size()); }
struct R { const char *method, *pattern; };
static const R tables[][6] = {
	{ { "GET", "/a" }, { "POST", "/a" }, { "", "/b" }, { "GET", "/:x" }, { "DELETE", "/*rest" }, { 0, 0 } },
	{ { "get", "/files/*path" }, { "", "/files/:id" }, { "PUT", "/:a/:b" }, { "GET", "/:a/:b" }, { "GET", "/" }, { 0, 0 } },
	{ { "", "/:x-:y/z" }, { "", "/q:x" }, { "POST", "/q*x" }, { "PATCH", "/q*x" }, { 0, 0 } },
	{ { "", "/*rest/end" }, { "GET", "/x/*p/:id/*q" }, { "", "/x*p" }, { 0, 0 } },
	{ { "", "/a.b" }, { "", "/c+" }, { "", "/(d)" }, { "", "/[e]" }, { "", "/f?g" }, { 0, 0 } },
	{ { "GET", "/*a/:b" }, { "GET", "/*x:y*z" }, { 0, 0 } },
	{ { "", "/h|i" }, { "", "/j^$" }, { "", "/k{2}" }, { "", "/l\\d" }, { "", "/:n.html" }, { 0, 0 } },
	{ { "", "/p/:id" }, { "", "/s/*rest" }, { "", "/d/:id/:x/*a" }, { "GET", "/o/:id" }, { "PUT", "/o/:x" }, { 0, 0 } },
	{ { "", "/a:" }, { "", "/*" }, { "", "/::b" }, { "", "/:a*b" }, { 0, 0 } },
};
static const char *const paths[][6] = { // texts near each table's patterns
	{ "/a", "/b", "/ab", "/c/d", "/", "/a%41" }, { "/files/a-b", "/files/", "/x/y", "/", "/x/y/z", "/files/a/b" }, { "/a-b/z", "/qrs", "/q", "/a-/z", "/--/z", "/q%20r" }, { "/a/b/end", "/x/a/b/c", "/end", "//end", "/x/a/b/", "/x" },
	{ "/a.b", "/cc", "/(d)", "/e", "/g", "/f%3fg" }, { "/a/b", "/aby", "/p/q/r_1", "/", "//x", "/a/" }, { "/i", "/j", "/kk", "/l1", "/ab.html", "/abhtml" }, { "/p/12", "/s/a/b", "/d/1/2/3", "/o/5", "/p/", "/s/" }, { "/a:", "/*", "/:cc", "/xy", "/", "/a" },
};
typedef QVector<QPair<QString, QString> > Params;
static ushort folded(ushort c) { return (c >= 'A' && c <= 'Z') ? c + 32 : c; }
static bool sameName(const QString &a, const QString &b) { if (a.size() != b.size()) return false; for (int i = 0; i < a.size(); ++i) if (folded(a.at(i).unicode()) != folded(b.at(i).unicode())) return false; return true; }
static void setIn(Params &p, const QString &name, const QString &value) { for (int i = 0; i < p.size(); ++i) if (sameName(p.at(i).first, name)) { p[i] = qMakePair(name, value); return; } p.append(qMakePair(name, value)); }
static bool ciSame(const QByteArray &a, const char *b) { int n = int(strlen(b)); if (a.size() != n) return false; for (int i = 0; i < n; ++i) if (lower(a.constData()[i]) != lower(b[i])) return false; return true; }
// The parameters after a route with pattern p took a request with these query parameters: each name bound to what makes the pattern the path again.
static void checkBinding(HttpConnection *c, const char *pattern, const QString &path, Params query) {
	QVector<Piece> p = piecesOf(pattern); QString back; 
	for (int i = 0; i < p.size(); ++i) {
		if (p.at(i).kind == 't') { back += p.at(i).text; continue; }
		QString v = c->requestParamValue(p.at(i).text); back += v; setIn(query, p.at(i).text, v);
		if (p.at(i).kind == ':') { sx_assert(v.size() > 0, "a ':name' is bound to a non-empty word"); bool w = true; for (int j = 0; j < v.size(); ++j) w = w && wordChar(v.at(j).unicode()); sx_assert(w, "a ':name' is bound to a word"); }
	}
	sx_assert(same(back, path), "putting the values back into the pattern gives the decoded path");
	const HttpParamCollection &now = c->requestParams(); bool ok = now.size() == query.size(); for (int i = 0; ok && i < now.size(); ++i) ok = same(now.at(i).first, query.at(i).first) && same(now.at(i).second, query.at(i).second); sx_assert(ok, "route parameters replace query parameters of the same name and leave the others alone"); sx_cover("bound");
}
static bool plain(const QString &s) { for (int i = 0; i < s.size(); ++i) if (s.at(i).unicode() >= 128) return false; return true; }
// params: table, path text, symbolic bytes, replaced or inserted, query text, how unmatched requests are answered
extern "C" void router() {
	int t = int(sx_param(0)), pk = int(sx_param(1)), n = int(sx_param(2)), ins = int(sx_param(3)), qk = int(sx_param(4)), act = int(sx_param(5)), mk = int(sx_param(6)); const R *routes = tables[t]; int count = 0; while (routes[count].pattern) ++count;
	HttpHandlerSimpleRouter router; QByteArray invoked; QObject holder;
	for (int i = 0; i < count; ++i) router.addRoute(QByteArray(routes[i].method), QString::fromLatin1(routes[i].pattern), [i, &invoked](HttpConnection *) { invoked.append(char('0' + i)); });
	router.setUnmatchedRequestAction(act & 1 ? HttpHandlerSimpleRouter::Return4xxResponse : HttpHandlerSimpleRouter::Passthrough); router.setMethodMismatchAction(act & 2 ? HttpHandlerSimpleRouter::Return4xxResponse : HttpHandlerSimpleRouter::Passthrough); router.setAcceptsMethodParam((act & 4) != 0);
	QByteArray base = paths[t][pk], sym = symText(n, "path", "?#\""); int room = base.size() - 1 - (ins ? 0 : n), at = 1; if (room > 0) at = 1 + int(sx_concrete(sx_int(0, room, "at"))); QByteArray text = base.left(at) + sym; int after = at + (ins ? 0 : n); if (after < base.size()) text += base.mid(after);
	static const char *const queries[] = { "", "?id=9&x=1", "?x&ID=3&a=b&rest=q&path", "?_method=put&y=1", "?_METHOD=&p=2", "?_method=delete%20" }; QByteArray q = queries[qk], method = "GET"; if (mk == 1) method = symText(3, "method", ""); else if (mk == 2) method = "POST"; else if (mk == 3) method = "DELETE"; else if (mk == 4) method = symText(4, "method", ""); if (qk == 0 && (act & 4)) q = "?_method=" + symText(3, "override", "%&#?\"");
	Rec a; bool taken = false; int asked = 0;
	a.onReady = [&](HttpConnection *c) {
		if (a.ready > 1) return; ++asked; QString path = QString::fromUtf8(QByteArray::fromPercentEncoding(QByteArray(c->requestPath().constData(), c->requestPath().size()))); sx_assume(plain(path));
		Params query; { const HttpParamCollection &p = c->requestParams(); for (int i = 0; i < p.size(); ++i) query.append(qMakePair(p.at(i).first, p.at(i).second)); }
		QByteArray m(c->requestMethod().constData(), c->requestMethod().size()); if (act & 4) for (int i = 0; i < query.size(); ++i) if (sameName(query.at(i).first, QString::fromLatin1("_method"))) { if (!query.at(i).second.isEmpty()) m = query.at(i).second.toLatin1(); break; }
		int want = -1; QVector<QByteArray> allowed; for (int i = 0; i < count && want < 0; ++i) if (matches(routes[i].pattern, path)) { if (!routes[i].method[0] || ciSame(m, routes[i].method)) want = i; else allowed.append(routes[i].method); }
		taken = router.handleRequest(c); sx_out("invoked", invoked.constData(), invoked.size()); sx_out_int("taken", taken);
		if (want >= 0) { sx_cover("matched"); sx_assert(taken && invoked.size() == 1 && invoked.at(0) == '0' + want, "the first route whose pattern and method match is invoked, and no other"); sx_assert(a.dev.out.isEmpty(), "the router writes nothing itself"); checkBinding(c, routes[want].pattern, path, query); return; }
		sx_assert(invoked.isEmpty(), "no route is invoked when none matches"); bool answers = allowed.isEmpty() ? (act & 1) != 0 : (act & 2) != 0; sx_assert(taken == answers, "unmatched requests are answered or passed on as configured"); sx_out("out", a.dev.out.constData(), a.dev.out.size());
		if (!answers) { sx_cover("passed on"); sx_assert(a.dev.out.isEmpty(), "a request passed on is not answered"); const HttpParamCollection &p = c->requestParams(); sx_assert(p.size() == query.size(), "and its parameters are left alone"); return; }
		Msg r = readResponse(a.dev.out, 0, false); sx_assert(r.ok && r.complete && r.used == a.dev.out.size(), "one response"); if (allowed.isEmpty()) { sx_cover("404"); sx_assert(r.status() == 404, "404 when no pattern matches"); return; }
		sx_cover("405"); sx_assert(r.status() == 405, "405 when only patterns match"); QByteArray list = r.value("allow"); QVector<QByteArray> got; int b = 0; for (int i = 0; i <= list.size(); ++i) if (i == list.size() || list.at(i) == ',') { while (b < i && list.at(b) == ' ') ++b; got.append(list.mid(b, i - b)); b = i + 1; }
		bool ok = true; for (int i = 0; i < allowed.size(); ++i) { bool f = false; for (int j = 0; j < got.size(); ++j) f = f || same(got.at(j), allowed.at(i)); ok = ok && f; } for (int j = 0; j < got.size(); ++j) { bool f = false; for (int i = 0; i < allowed.size(); ++i) f = f || same(got.at(j), allowed.at(i)); ok = ok && f; } sx_assert(ok, "405 lists the methods of the routes whose pattern matches, and only those");
	};
	a.dev.feed(method + " " + text + q + " HTTP/1.1\r\n\r\n"); if (!asked) sx_cover("not accepted");
}
// Every kind of route. param: kind
class RouteTarget : public QObject { Q_OBJECT
public: QByteArray calls; RouteTarget() {} Q_INVOKABLE void invokable(Pillow::HttpConnection *c) { calls.append('i'); c->writeResponse(201); }
public slots: void slotted(Pillow::HttpConnection *c) { calls.append('s'); c->writeResponse(202); }
};
extern "C" void router_kinds() {
	int kind = int(sx_param(0)); HttpHandlerSimpleRouter router; RouteTarget target; HttpHandlerFixed fixed(203, "fixed"); QString path = QString::fromLatin1("/k/:v"); int want = 0; HttpHeaderCollection h; h << HttpHeader("X-Static", "yes"); bool called = false;
	router.addRoute(QString::fromLatin1("/other"), 500, noHeaders);
	switch (kind) {
	case 0: router.addRoute(path, &fixed); want = 203; break; case 1: router.addRoute("GET", path, 404, h, "static"); want = 404; break; case 2: router.addRoute(path, [&](HttpConnection *c) { called = true; c->writeResponse(205); }); want = 205; break;
	case 3: router.addRoute(path, &target, "slotted"); want = 202; break; case 4: router.addRoute(path, &target, SLOT(slotted(Pillow::HttpConnection *))); want = 202; break; case 5: router.addRoute(path, &target, "slotted(Pillow::HttpConnection*)"); want = 202; break;
	case 6: router.addRoute(path, &target, "invokable"); want = 201; break; case 7: router.addRoute(path, &target, "invokable(Pillow::HttpConnection*)"); want = 201; break;
	case 8: { HttpHandlerSimpleRouter *in = new HttpHandlerSimpleRouter(&router); in->addRoute(QString::fromLatin1("/k/x"), 500, noHeaders); in->addRoute(path, &fixed); router.addRoute(path, in); want = 203; break; }
	case 9: router.addRoute(path, (QObject *)0, "slotted"); router.addRoute(path, &target, ""); router.addRoute(path, &target, (const char *)0); router.addRoute(path, &fixed); want = 203; break; // refused registrations leave no route
	}
	QByteArray v = symText(2, "v", "%/?#\""); Rec a; bool r = false; a.onReady = [&](HttpConnection *c) { QString p = QString::fromUtf8(QByteArray(c->requestPath().constData(), c->requestPath().size())); sx_assume(plain(p)); bool m = matches("/k/:v", p); r = router.handleRequest(c); sx_assert(r == m, "taken exactly when the pattern matches"); if (!m) { sx_cover("no match"); sx_assert(a.dev.out.isEmpty() && target.calls.isEmpty(), "nothing called"); return; }
		sx_cover("invoked"); Msg x = readResponse(a.dev.out, 0, false); sx_assert(x.ok && x.status() == want && x.used == a.dev.out.size(), "the route is invoked once, whatever its kind"); sx_assert(target.calls.size() == ((kind >= 3 && kind <= 7) ? 1 : 0), "the member is called once"); if (kind == 1) sx_assert(same(x.value("x-static"), "yes") && same(x.body, "static"), "static headers and content"); };
	a.dev.feed("GET /k/" + v + " HTTP/1.1\r\n\r\n"); sx_out("out", a.dev.out.constData(), a.dev.out.size());
}
#include "h_router.moc"
