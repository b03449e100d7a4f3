// One file of a file system with a page cache and durable storage, behind stand-ins for the system calls; every call can be made to fail.
#pragma once
#include "streams.h"
#include "tags.h"
#include <cerrno>
#include <fcntl.h>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
namespace fsim {
constexpr size_t CAP = 8192;
inline const char* const kPath = "ckpt.bin";
struct Map { char* p; size_t len, off; int fd; bool live, shared, write; };
struct Fd { bool live, rd, wr; size_t pos; };
inline bool gExists = false; inline char gCache[CAP], gDur[CAP]; inline size_t gSize = 0, gDurSize = 0;
inline Map gMap[8]; inline int gMaps = 0; inline Fd gFd[16]; inline int gFds = 0;
inline long gFaultAt = -1; inline int gErr = 5; inline bool gHit = false; inline const char* gHitCall = ""; inline int gCalls = 0; inline bool gWrote = false; // the file was changed
inline void reset() { gExists = false; gSize = gDurSize = 0; gMaps = gFds = 0; gFaultAt = -1; gHit = false; gHitCall = ""; gCalls = 0; gWrote = false; }
inline bool faulty(const char* call) { gCalls++; if (gFaultAt < 0 || gFaultAt-- > 0) return false; gFaultAt = -1; gHit = true; gHitCall = call; errno = gErr; return true; }
inline int err(int e) { errno = e; return -1; }
inline Fd* fd(int n) { int i = n - 3; if (i < 0 || i >= gFds || !gFd[i].live) return nullptr; return &gFd[i]; }
inline void resize(size_t n) { vp_check(n <= CAP, "file size stays within the model"); if (n > gSize) memset(gCache + gSize, 0, n - gSize); gSize = n; gWrote = true; }
inline void pull() { for (int i = 0; i < gMaps; i++) if (gMap[i].live && gMap[i].shared && gMap[i].write) { if (gMap[i].off < gSize) { size_t k = gSize - gMap[i].off; if (k > gMap[i].len) k = gMap[i].len; memcpy(gCache + gMap[i].off, gMap[i].p, k); } gWrote = true; } }
inline void durable() { pull(); memcpy(gDur, gCache, gSize); gDurSize = gSize; }
inline int doOpen(const char* path, int flags) {
  vp_check(strcmp(path, kPath) == 0, "the requested file is opened");
  if (faulty("open")) return -1;
  if (!gExists) { if (!(flags & O_CREAT)) return err(ENOENT); gExists = true; gSize = 0; gWrote = true; } else if ((flags & O_CREAT) && (flags & O_EXCL)) return err(EEXIST);
  int acc = flags & O_ACCMODE; if (flags & O_TRUNC) resize(0);
  CHECK(gFds < 16); gFd[gFds] = Fd{true, acc != O_WRONLY, acc != O_RDONLY, 0}; return 3 + gFds++;
}
inline int doStat(struct stat* st) { memset(st, 0, sizeof *st); st->st_size = (off_t)gSize; st->st_mode = S_IFREG | 0600; st->st_blksize = 4096; st->st_nlink = 1; return 0; }
inline int doTrunc(int n, long len) { if (faulty("ftruncate")) return -1; Fd* f = fd(n); if (!f) return err(EBADF); if (!f->wr || len < 0) return err(EINVAL); resize((size_t)len); return 0; }
inline void* doMap(size_t len, int prot, int flags, int n, long off) {
  if (faulty("mmap")) return MAP_FAILED; Fd* f = fd(n);
  if (!len || off % 4096) { err(EINVAL); return MAP_FAILED; } if (!f) { err(EBADF); return MAP_FAILED; }
  bool shared = (flags & 3) != MAP_PRIVATE; if (!f->rd || (shared && (prot & PROT_WRITE) && !f->wr)) { err(EACCES); return MAP_FAILED; }
  vp_check(len <= CAP, "mapping stays within the model"); CHECK(gMaps < 8);
  char* p = (char*)vp_map(len); memset(p, 0, len); if ((size_t)off < gSize) { size_t k = gSize - (size_t)off; memcpy(p, gCache + off, k < len ? k : len); }
  if (!(prot & PROT_WRITE)) vp_protect(p, len, true); // a write would fault
  gMap[gMaps++] = Map{p, len, (size_t)off, n, true, shared, (prot & PROT_WRITE) != 0}; return p;
}
inline Map* find(const void* p) { for (int i = 0; i < gMaps; i++) if (gMap[i].live && gMap[i].p == p) return &gMap[i]; return nullptr; }
inline int doSync(void* p, size_t len, int flags) { if (faulty("msync")) return -1; Map* m = find(p); if (!m) return err(ENOMEM); if (((flags & MS_SYNC) != 0) == ((flags & MS_ASYNC) != 0)) return err(EINVAL); pull();
  if ((flags & MS_SYNC) && m->shared) { gDurSize = gSize; if (m->off < gSize) { size_t k = gSize - m->off; memcpy(gDur + m->off, gCache + m->off, k < len ? k : len); } } return 0; }
inline int doUnmap(void* p, size_t len) { if (faulty("munmap")) return -1; Map* m = find(p); vp_check(m != nullptr, "munmap of a live mapping"); vp_check(len <= (m->len + 4095) / 4096 * 4096, "munmap of what was mapped"); if (!len) return err(EINVAL); pull(); if (!m->write) vp_protect(m->p, m->len, false); vp_unmap(m->p); m->live = false; return 0; }
inline int doClose(int n) { bool bad = faulty("close"); Fd* f = fd(n); vp_check(n < 3 || f != nullptr, "close of an open descriptor"); if (!f) return err(EBADF); f->live = false; return bad ? err(gErr) : 0; } // a failing close releases the descriptor all the same
inline int openFds() { int k = 0; for (int i = 0; i < gFds; i++) k += gFd[i].live; return k; }
inline int liveMaps() { int k = 0; for (int i = 0; i < gMaps; i++) k += gMap[i].live; return k; }
inline void drop() { for (int i = 0; i < gMaps; i++) if (gMap[i].live) { if (!gMap[i].write) vp_protect(gMap[i].p, gMap[i].len, false); vp_unmap(gMap[i].p); gMap[i].live = false; } } // what a failed munmap left
inline bool holds(const char* b, size_t n) { if (gSize != n) return false; return memcmp(gCache, b, n) == 0; }
inline bool stored(const char* b, size_t n) { if (gDurSize != n) return false; return memcmp(gDur, b, n) == 0; }
inline void put(size_t n) { gExists = true; gSize = 0; resize(n); vp_sym_mem("old", gCache, n); durable(); gWrote = false; } // a file from before
}
VPX(int, open, (const char* p, int fl, mode_t)) { return fsim::doOpen(p, fl); }
VPX(int, open64, (const char* p, int fl, mode_t)) { return fsim::doOpen(p, fl); }
VPX(int, fstat, (int n, struct stat* st)) { if (fsim::faulty("fstat")) return -1; if (!fsim::fd(n)) return fsim::err(EBADF); return fsim::doStat(st); }
VPX(int, fstat64, (int n, struct stat* st)) { if (fsim::faulty("fstat")) return -1; if (!fsim::fd(n)) return fsim::err(EBADF); return fsim::doStat(st); }
VPX(int, stat, (const char* p, struct stat* st)) { vp_check(strcmp(p, fsim::kPath) == 0, "the requested file is examined"); if (fsim::faulty("fstat")) return -1; if (!fsim::gExists) return fsim::err(ENOENT); return fsim::doStat(st); }
VPX(int, fallocate, (int n, int mode, off_t off, off_t len)) { if (fsim::faulty("fallocate")) return -1; auto* f = fsim::fd(n); if (!f || !f->wr) return fsim::err(EBADF); if (len <= 0 || off < 0) return fsim::err(EINVAL); if (!(mode & 1) && (size_t)(off + len) > fsim::gSize) fsim::resize((size_t)(off + len)); return 0; }
VPX(int, posix_fallocate, (int n, off_t off, off_t len)) { if (fsim::faulty("posix_fallocate")) return fsim::gErr; auto* f = fsim::fd(n); if (!f || !f->wr) return EBADF; if (len <= 0 || off < 0) return EINVAL; if ((size_t)(off + len) > fsim::gSize) fsim::resize((size_t)(off + len)); return 0; }
VPX(int, ftruncate, (int n, off_t len)) { return fsim::doTrunc(n, len); }
VPX(int, ftruncate64, (int n, off_t len)) { return fsim::doTrunc(n, len); }
VPX(int, fsync, (int n)) { if (fsim::faulty("fsync")) return -1; if (!fsim::fd(n)) return fsim::err(EBADF); fsim::durable(); return 0; }
VPX(int, fdatasync, (int n)) { if (fsim::faulty("fsync")) return -1; if (!fsim::fd(n)) return fsim::err(EBADF); fsim::durable(); return 0; }
VPX(void*, mmap, (void*, size_t len, int prot, int fl, int n, off_t off)) { return fsim::doMap(len, prot, fl, n, off); }
VPX(void*, mmap64, (void*, size_t len, int prot, int fl, int n, off_t off)) { return fsim::doMap(len, prot, fl, n, off); }
VPX(int, msync, (void* p, size_t len, int fl)) { return fsim::doSync(p, len, fl); }
VPX(int, munmap, (void* p, size_t len)) { return fsim::doUnmap(p, len); }
VPX(int, close, (int n)) { return fsim::doClose(n); }
VPX(int, madvise, (void*, size_t, int)) { return 0; }
VPX(int, posix_madvise, (void*, size_t, int)) { return 0; }
VPX(int, posix_fadvise, (int, off_t, off_t, int)) { return 0; }
VPX(off_t, lseek, (int n, off_t off, int wh)) { if (fsim::faulty("fstat")) return -1; auto* f = fsim::fd(n); if (!f) return fsim::err(EBADF); f->pos = (size_t)(wh == SEEK_END ? (off_t)fsim::gSize + off : wh == SEEK_CUR ? (off_t)f->pos + off : off); return (off_t)f->pos; }
VPX(ssize_t, write, (int n, const void* b, size_t k)) { if (fsim::faulty("write")) return -1; auto* f = fsim::fd(n); if (!f || !f->wr) return fsim::err(EBADF); if (f->pos + k > fsim::gSize) fsim::resize(f->pos + k); memcpy(fsim::gCache + f->pos, b, k); f->pos += k; fsim::gWrote = true; return (ssize_t)k; }
VPX(ssize_t, read, (int n, void* b, size_t k)) { if (fsim::faulty("read")) return -1; auto* f = fsim::fd(n); if (!f || !f->rd) return fsim::err(EBADF); fsim::pull(); size_t m = f->pos >= fsim::gSize ? 0 : fsim::gSize - f->pos; if (m > k) m = k; memcpy(b, fsim::gCache + f->pos, m); f->pos += m; return (ssize_t)m; }
