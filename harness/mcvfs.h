// An in-memory file system for sqlite: several connections with real lock semantics, fault
// injection on every call, and a log of writes from which every crash state can be built.
#pragma once
#include <sqlite3.h>
#include <string.h>
#include <map>
#include <set>
#include <string>
#include <vector>
#include "mc.h"

namespace vfs {
typedef std::string Bytes;
struct VFile;
struct File { Bytes d; std::set<VFile *> open; };
struct VFile { sqlite3_file base; File *f; std::string *name; int lock; bool del; };
struct LogOp { enum K { WRITE, TRUNC, SYNC, CREATE, DELETE } k; std::string name; size_t off; Bytes data; };
inline std::map<std::string, File *> &files() { static std::map<std::string, File *> m; return m; }
inline std::set<File *> &orphans() { static std::set<File *> m; return m; }
inline std::vector<LogOp> *&log() { static std::vector<LogOp> *l = 0; return l; }

// ---- faults ----
enum Kind { NONE, BUSY, IOERR, FULL, NOMEM };
struct Fault { Kind kind; int at; int count; int seen; int hit; };
inline Fault &fault() { static Fault f; return f; }
inline void arm(Kind k, int at, int count) { fault() = Fault{ k, at, count, 0, 0 }; }
inline void disarm() { fault().kind = NONE; }
inline bool strike(Kind k)
{
	Fault &f = fault(); if (f.kind != k) return false;
	int n = f.seen++; if (n < f.at || n - f.at >= f.count) return false;
	f.hit++; return true;
}
inline VFile *V(sqlite3_file *f) { return (VFile *)f; }
inline int xClose(sqlite3_file *p)
{
	VFile *v = V(p); v->f->open.erase(v);
	if (v->del && files().count(*v->name) && files()[*v->name] == v->f) { orphans().insert(v->f); files().erase(*v->name); }
	if (v->f->open.empty() && orphans().erase(v->f)) delete v->f;
	delete v->name; v->name = 0; return SQLITE_OK;
}
inline int xRead(sqlite3_file *p, void *b, int n, sqlite3_int64 off)
{
	if (strike(IOERR)) return SQLITE_IOERR_READ;
	Bytes &d = V(p)->f->d; memset(b, 0, n); if (off >= (sqlite3_int64)d.size()) return SQLITE_IOERR_SHORT_READ;
	size_t k = std::min<size_t>(n, d.size() - off); memcpy(b, d.data() + off, k); return k == (size_t)n ? SQLITE_OK : SQLITE_IOERR_SHORT_READ;
}
inline void put(Bytes &d, size_t off, const Bytes &w) { if (d.size() < off + w.size()) d.resize(off + w.size()); memcpy(&d[off], w.data(), w.size()); }
inline int xWrite(sqlite3_file *p, const void *b, int n, sqlite3_int64 off)
{
	if (strike(IOERR)) return SQLITE_IOERR_WRITE;
	if (strike(FULL)) return SQLITE_FULL;
	Bytes w((const char *)b, n); put(V(p)->f->d, off, w);
	if (log()) log()->push_back(LogOp{ LogOp::WRITE, *V(p)->name, (size_t)off, w }); return SQLITE_OK;
}
inline int xTruncate(sqlite3_file *p, sqlite3_int64 n)
{
	if (strike(IOERR)) return SQLITE_IOERR_TRUNCATE;
	V(p)->f->d.resize(n); if (log()) log()->push_back(LogOp{ LogOp::TRUNC, *V(p)->name, (size_t)n, "" }); return SQLITE_OK;
}
inline int xSync(sqlite3_file *p, int)
{
	if (strike(IOERR)) return SQLITE_IOERR_FSYNC;
	if (log()) log()->push_back(LogOp{ LogOp::SYNC, *V(p)->name, 0, "" }); return SQLITE_OK;
}
inline int xFileSize(sqlite3_file *p, sqlite3_int64 *n) { if (strike(IOERR)) return SQLITE_IOERR_FSTAT; *n = V(p)->f->d.size(); return SQLITE_OK; }
inline int xLock(sqlite3_file *p, int l)
{
	VFile *v = V(p); if (v->lock >= l) return SQLITE_OK;
	if (strike(BUSY)) return SQLITE_BUSY;
	int top = 0; bool shared = false; for (VFile *o : v->f->open) if (o != v) { top = std::max(top, o->lock); if (o->lock >= 1) shared = true; }
	if (l == SQLITE_LOCK_SHARED) { if (top >= SQLITE_LOCK_PENDING) return SQLITE_BUSY; v->lock = l; return SQLITE_OK; }
	if (top >= SQLITE_LOCK_RESERVED) return SQLITE_BUSY;
	if (l == SQLITE_LOCK_RESERVED) { v->lock = l; return SQLITE_OK; }
	if (shared) { v->lock = SQLITE_LOCK_PENDING; return SQLITE_BUSY; }
	v->lock = l; return SQLITE_OK;
}
inline int xUnlock(sqlite3_file *p, int l) { if (V(p)->lock > l) V(p)->lock = l; return SQLITE_OK; }
inline int xCheckReservedLock(sqlite3_file *p, int *r)
{
	*r = 0; for (VFile *o : V(p)->f->open) if (o->lock >= SQLITE_LOCK_RESERVED) *r = 1; return SQLITE_OK;
}
inline int xFileControl(sqlite3_file *, int, void *) { return SQLITE_NOTFOUND; }
inline int xSectorSize(sqlite3_file *) { return 512; }
inline int xDeviceCharacteristics(sqlite3_file *) { return 0; }
inline const sqlite3_io_methods *methods()
{
	static sqlite3_io_methods m; m.iVersion = 1; m.xClose = xClose; m.xRead = xRead; m.xWrite = xWrite; m.xTruncate = xTruncate; m.xSync = xSync; m.xFileSize = xFileSize;
	m.xLock = xLock; m.xUnlock = xUnlock; m.xCheckReservedLock = xCheckReservedLock; m.xFileControl = xFileControl; m.xSectorSize = xSectorSize; m.xDeviceCharacteristics = xDeviceCharacteristics; return &m;
}
inline int xOpen(sqlite3_vfs *, const char *name, sqlite3_file *p, int flags, int *out)
{
	static int tmp; std::string nm = name ? name : "/tmp#" + std::to_string(tmp++); p->pMethods = 0;
	if (!(flags & SQLITE_OPEN_MAIN_DB) && strike(IOERR)) return SQLITE_CANTOPEN;
	auto it = files().find(nm);
	if (it == files().end()) {
		if (!(flags & SQLITE_OPEN_CREATE)) return SQLITE_CANTOPEN;
		it = files().insert({ nm, new File }).first; if (log()) log()->push_back(LogOp{ LogOp::CREATE, nm, 0, "" });
	}
	VFile *v = V(p); v->base.pMethods = methods(); v->f = it->second; v->name = new std::string(nm); v->lock = 0; v->del = flags & SQLITE_OPEN_DELETEONCLOSE; v->f->open.insert(v);
	if (out) *out = flags; return SQLITE_OK;
}
inline int xDelete(sqlite3_vfs *, const char *name, int)
{
	if (strike(IOERR)) return SQLITE_IOERR_DELETE;
	auto it = files().find(name); if (it == files().end()) return SQLITE_IOERR_DELETE_NOENT;
	if (it->second->open.empty()) delete it->second; else orphans().insert(it->second); files().erase(it); if (log()) log()->push_back(LogOp{ LogOp::DELETE, name, 0, "" }); return SQLITE_OK;
}
inline int xAccess(sqlite3_vfs *, const char *name, int, int *r) { if (strike(IOERR)) return SQLITE_IOERR_ACCESS; auto it = files().find(name); *r = it != files().end() && it->second->d.size(); return SQLITE_OK; }
inline int xFullPathname(sqlite3_vfs *, const char *name, int n, char *out) { snprintf(out, n, "%s", name); return SQLITE_OK; }
inline int xRandomness(sqlite3_vfs *, int n, char *o) { static unsigned s = 12345; for (int i = 0; i < n; i++) { s = s * 1103515245 + 12345; o[i] = s >> 16; } return n; }
inline int xSleep(sqlite3_vfs *, int us) { return us; }
inline int xCurrentTime(sqlite3_vfs *, double *t) { *t = 2460000.5; return SQLITE_OK; }
inline int xGetLastError(sqlite3_vfs *, int, char *) { return 0; }
inline sqlite3_mem_methods &realMem() { static sqlite3_mem_methods m; return m; }
inline void *mMalloc(int n) { return strike(NOMEM) ? 0 : realMem().xMalloc(n); }
inline void *mRealloc(void *p, int n) { return strike(NOMEM) ? 0 : realMem().xRealloc(p, n); }
// Before the first use of sqlite.
inline void install()
{
	static bool done; if (done) return; done = true;
	static sqlite3_mem_methods m; sqlite3_config(SQLITE_CONFIG_GETMALLOC, &realMem()); m = realMem(); m.xMalloc = mMalloc; m.xRealloc = mRealloc; sqlite3_config(SQLITE_CONFIG_MALLOC, &m);
	static sqlite3_vfs v; v.iVersion = 1; v.szOsFile = sizeof(VFile); v.mxPathname = 512; v.zName = "mc"; v.xOpen = xOpen; v.xDelete = xDelete; v.xAccess = xAccess; v.xFullPathname = xFullPathname;
	v.xRandomness = xRandomness; v.xSleep = xSleep; v.xCurrentTime = xCurrentTime; v.xGetLastError = xGetLastError;
	sqlite3_initialize(); sqlite3_vfs_register(&v, 1);
}
// Connections opened through sqlite3_open (wrapped by the harness).
inline std::set<sqlite3 *> &conns() { static std::set<sqlite3 *> s; return s; }
inline int &lastOpen() { static int r; return r; }
inline void closeAll();
inline void reset()
{
	disarm(); closeAll(); delete log(); log() = 0;
	for (auto &p : files()) delete p.second; files().clear(); for (File *f : orphans()) delete f; orphans().clear();
}
typedef std::map<std::string, Bytes> Image;
inline Image image() { Image i; for (auto &p : files()) i[p.first] = p.second->d; return i; }
inline void restore(const Image &i) { reset(); for (auto &p : i) { File *f = new File; f->d = p.second; files()[p.first] = f; } }
// What is on the medium after a crash right after log entry `upto` (exclusive).  Synced writes
// survive; of the others, bit i of `keep` says whether the i-th survives; `torn` (if >= 0) is one
// whose first half only survives.  Creation and deletion of files take effect in order.
inline int unsynced(const std::vector<LogOp> &l, int upto, std::vector<int> *which = 0)
{
	std::vector<int> u;
	for (int i = 0; i < upto; i++) {
		if (l[i].k == LogOp::WRITE || l[i].k == LogOp::TRUNC) u.push_back(i);
		else if (l[i].k == LogOp::SYNC || l[i].k == LogOp::DELETE) { std::vector<int> n; for (int j : u) if (l[j].name != l[i].name) n.push_back(j); u = n; }
	}
	if (which) *which = u; return u.size();
}
inline Image crash(const Image &start, const std::vector<LogOp> &l, int upto, uint32_t keep, int torn)
{
	std::vector<int> u; unsynced(l, upto, &u); std::map<int, int> idx; for (unsigned i = 0; i < u.size(); i++) idx[u[i]] = i;
	Image im = start;
	for (int i = 0; i < upto; i++) {
		const LogOp &o = l[i]; auto x = idx.find(i); Bytes data = o.data;
		if (x != idx.end()) { if (x->second == torn) data = data.substr(0, (data.size() / 2 + 511) / 512 * 512); else if (!(keep >> x->second & 1)) continue; }
		switch (o.k) {
		case LogOp::CREATE: im[o.name] = ""; break;
		case LogOp::DELETE: im.erase(o.name); break;
		case LogOp::WRITE: if (im.count(o.name)) put(im[o.name], o.off, data); break;
		case LogOp::TRUNC: if (im.count(o.name)) im[o.name].resize(o.off); break;
		default: break;
		}
	}
	return im;
}
}
extern "C" int __real_sqlite3_open(const char *, sqlite3 **);
extern "C" int __real_sqlite3_open_v2(const char *, sqlite3 **, int, const char *);
extern "C" int __real_sqlite3_close(sqlite3 *);
extern "C" int __real_sqlite3_close_v2(sqlite3 *);
extern "C" int __wrap_sqlite3_open(const char *f, sqlite3 **p) { vfs::install(); int r = vfs::lastOpen() = __real_sqlite3_open(f, p); if (*p) vfs::conns().insert(*p); return r; }
extern "C" int __wrap_sqlite3_open_v2(const char *f, sqlite3 **p, int fl, const char *v) { vfs::install(); int r = vfs::lastOpen() = __real_sqlite3_open_v2(f, p, fl, v); if (*p) vfs::conns().insert(*p); return r; }
extern "C" int __wrap_sqlite3_close(sqlite3 *p) { vfs::conns().erase(p); return __real_sqlite3_close(p); }
extern "C" int __wrap_sqlite3_close_v2(sqlite3 *p) { vfs::conns().erase(p); return __real_sqlite3_close_v2(p); }
inline void vfs::closeAll()
{
	std::set<sqlite3 *> s; s.swap(conns());
	for (sqlite3 *p : s) { sqlite3_stmt *st; while ((st = sqlite3_next_stmt(p, 0))) sqlite3_finalize(st); __real_sqlite3_close(p); }
}
