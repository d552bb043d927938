// Faults of the file system for one file: the monitor's own read and write
#ifndef VERIF_FAULTS_H
#define VERIF_FAULTS_H
#include "common.h"
#include <cerrno>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/resource.h>
#include <signal.h>
namespace vf {
struct Fault {
  bool armed; str path; long readLimit, writeLimit; int err; bool shorts, eintr; Rng *rng; long hits, ops;
  Fault() : armed(false), readLimit(-1), writeLimit(-1), err(EIO), shorts(false), eintr(false), rng(0), hits(0), ops(0) {}
  static Fault &get() { static Fault f; return f; }
  bool mine(int fd) {
    struct stat a, b;
    return armed && !stat(path.c_str(), &a) && !fstat(fd, &b) && a.st_dev == b.st_dev && a.st_ino == b.st_ino;
  }
};
inline long faultRead(int fd, void *b, size_t n) {
  Fault &f = Fault::get();
  if (f.armed) { f.armed = false; f.armed = true; if (f.mine(fd)) {
    ++f.ops;
    if (f.eintr && f.rng && f.rng->chance(20)) { errno = EINTR; return -1; }
    if (f.readLimit >= 0) { if (f.readLimit == 0) { ++f.hits; errno = f.err; return -1; } if ((long)n > f.readLimit) n = f.readLimit; }
    if (f.shorts && f.rng && n > 1) n = 1 + f.rng->below(n > 300 ? 300 : n);
    long k = syscall(SYS_read, fd, b, n); if (k > 0 && f.readLimit > 0) f.readLimit -= k; return k;
  } }
  return syscall(SYS_read, fd, b, n);
}
inline long faultWrite(int fd, const void *b, size_t n) {
  Fault &f = Fault::get();
  if (f.armed && f.mine(fd)) {
    ++f.ops;
    if (f.eintr && f.rng && f.rng->chance(20)) { errno = EINTR; return -1; }
    if (f.writeLimit >= 0) { if (f.writeLimit == 0) { if (n) { ++f.hits; errno = f.err; return -1; } } else if ((long)n > f.writeLimit) n = f.writeLimit; }
    if (f.shorts && f.rng && n > 1) n = 1 + f.rng->below(n);
    long k = syscall(SYS_write, fd, b, n); if (k > 0 && f.writeLimit > 0) f.writeLimit -= k; return k;
  }
  return syscall(SYS_write, fd, b, n);
}
}
extern "C" ssize_t read(int fd, void *b, size_t n) { return vf::faultRead(fd, b, n); }
extern "C" ssize_t write(int fd, const void *b, size_t n) { return vf::faultWrite(fd, b, n); }
extern "C" ssize_t writev(int fd, const struct iovec *v, int c) {
  vf::Fault &f = vf::Fault::get();
  if (!(f.armed && f.mine(fd))) return syscall(SYS_writev, fd, v, c);
  for (int i = 0; i < c; ++i) if (v[i].iov_len) return vf::faultWrite(fd, v[i].iov_base, v[i].iov_len);
  return 0;
}
#endif
