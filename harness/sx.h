// Harness API: symbolic values, assumptions, assertions. Implemented by the engine, or by native.cpp for replays.
#pragma once
extern "C" {
void sx_bytes(void *p, long n, const char *name);
long sx_int(long lo, long hi, const char *name);
void sx_assume(bool c);
void sx_assert(bool c, const char *msg);
void sx_cover(const char *what);
void sx_out(const char *label, const void *p, long n);
void sx_out_int(const char *label, long v);
long sx_concrete(long v);
long sx_param(int i);
int sx_symbolic(void);
bool sx_eq(const void *a, const void *b, long n);
void sx_note(const char *what, long v);
bool sx_alive(const void *p);
void sx_unmodelled(const char *what);
void sx_process_events(void);
void sx_fs_mkdir(const char *path);
void sx_fs_file(const char *path, const char *data, long n);
void sx_fs_link(const char *path, const char *target);
const char *sx_fs_root(void);
}
