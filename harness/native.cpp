// The harness API for native replays: inputs come from a file, observations go to stdout.
// usage: replay ENTRY INPUTS [params...]; exit 0 completed, 42 assertion failed, 77 assumption failed, 78 input mismatch
#include "qtall.h"
#include "sx.h"
#include <dlfcn.h>
#include <stdio.h>
#include <unistd.h>
#include <string>
#include <vector>
#include <map>
#include <fstream>
#include <sys/stat.h>
static std::vector<std::string> names, vals; static std::vector<long> params; static std::string root;
static void cleanup() { if (!root.empty()) QDir(QString::fromStdString(root)).removeRecursively(); }
static void leave(int rc) { fflush(stdout); cleanup(); _exit(rc); }
static std::map<std::string, int> counts; static unsigned long fill; static std::string key0; // inputs that are not given are chosen
static const std::string &take(const char *name, char kind) { // by name: compilers may order operands differently
	std::string key = name; for (size_t i = 0; i < key.size(); ++i) if (key[i] == ' ') key[i] = '_'; key += "#" + std::to_string(counts[name]++);
	for (size_t i = 0; i < vals.size(); ++i) if (names[i] == key) { if (vals[i][0] != kind) { printf("MISMATCH %s\n", name); leave(78); } return vals[i]; }
	static const std::string none; if (fill) { key0 = key; return none; }
	printf("NOINPUT %s\n", key.c_str()); leave(78); return vals[0];
}
static unsigned long rnd() { fill = fill * 6364136223846793005ul + 1442695040888963407ul; return fill >> 33; }
extern "C" {
void sx_bytes(void *p, long n, const char *name) { const std::string &v = take(name, 'x'); if (v.empty()) { static const char some[] = "aZ09 /:%.,;-=&?\"#+\t\r\n\0\x80\xe9\xff"; printf("FILL %s x", key0.c_str()); for (long i = 0; i < n; ++i) { unsigned char c = rnd() % 3 ? (unsigned char)some[rnd() % (sizeof some - 1)] : (unsigned char)('a' + rnd() % 26); ((unsigned char *)p)[i] = c; printf("%02x", c); } printf("\n"); fflush(stdout); return; } if ((long)(v.size() - 1) / 2 != n) { printf("MISMATCH length %s\n", name); leave(78); } for (long i = 0; i < n; ++i) ((unsigned char *)p)[i] = (unsigned char)strtol(v.substr(1 + 2 * i, 2).c_str(), 0, 16); }
long sx_int(long lo, long hi, const char *name) { const std::string &v = take(name, 'i'); if (v.empty()) { unsigned long span = (unsigned long)hi - (unsigned long)lo + 1, r = rnd(); long x = span ? lo + (long)(r % span) : (long)r; printf("FILL %s i%ld\n", key0.c_str(), x); fflush(stdout); return x; } long x = strtol(v.c_str() + 1, 0, 10); if (x < lo || x > hi) { printf("MISMATCH range %s\n", name); leave(78); } return x; }
void sx_assume(bool c) { if (!c) { printf("ASSUME\n"); leave(77); } }
void sx_assert(bool c, const char *msg) { if (!c) { printf("ASSERT %s\n", msg); leave(42); } }
void sx_cover(const char *what) { printf("COVER %s\n", what); }
void sx_out(const char *label, const void *p, long n) { printf("OUT %s ", label); for (long i = 0; i < n; ++i) printf("%02x", ((const unsigned char *)p)[i]); printf("\n"); fflush(stdout); }
void sx_out_int(const char *label, long v) { printf("OUT %s i%ld\n", label, v); fflush(stdout); }
long sx_concrete(long v) { return v; }
long sx_param(int i) { return i < (int)params.size() ? params[i] : 0; }
int sx_symbolic(void) { return 0; }
bool sx_eq(const void *a, const void *b, long n) { return memcmp(a, b, n) == 0; }
void sx_note(const char *, long) {}
bool sx_alive(const void *) { return true; }
void sx_unmodelled(const char *what) { printf("UNMODELLED %s\n", what); leave(79); }
void sx_process_events(void) { for (int i = 0; i < 25; ++i) { QCoreApplication::processEvents(); QCoreApplication::sendPostedEvents(0, QEvent::DeferredDelete); } }
static std::string full(const char *p) { return std::string(sx_fs_root()) + (*p ? "/" : "") + p; }
static void parents(const std::string &f) { QDir().mkpath(QFileInfo(QString::fromStdString(f)).path()); }
void sx_fs_mkdir(const char *p) { QDir().mkpath(QString::fromStdString(full(p))); }
void sx_fs_file(const char *p, const char *d, long n) { std::string f = full(p); parents(f); FILE *o = fopen(f.c_str(), "wb"); fwrite(d, 1, n, o); fclose(o); }
void sx_fs_link(const char *p, const char *t) { std::string f = full(p); parents(f); std::string to = full(t); if (symlink(to.c_str(), f.c_str())) { perror("symlink"); leave(79); } }
const char *sx_fs_root(void) { if (root.empty()) { char t[] = "/tmp/sxfsXXXXXX"; if (!mkdtemp(t)) leave(79); char *r = realpath(t, 0); root = r; free(r); } return root.c_str(); }
}
static void quiet(QtMsgType, const QMessageLogContext &, const QString &) {}
int main(int argc, char **argv) {
	if (argc < 3) return 2; std::ifstream in(argv[2]); std::string n, v; while (in >> n >> v) { names.push_back(n); vals.push_back(v); }
	for (int i = 3; i < argc; ++i) params.push_back(strtol(argv[i], 0, 10));
	if (const char *f = getenv("SX_FILL")) fill = strtoul(f, 0, 10) * 2 + 1;
	QCoreApplication app(argc, argv); qInstallMessageHandler(quiet);
	void (*f)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]); if (!f) { fprintf(stderr, "no entry %s\n", argv[1]); return 2; }
	f(); printf("DONE\n"); leave(0); return 0;
}
