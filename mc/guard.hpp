// Buffers that fault on the first byte outside, and can be made read-only.
#pragma once
#include "life.hpp"
#include <sys/mman.h>
struct GB {
  uint8_t *base = nullptr; size_t pages = 0, n = 0; uint8_t *p = nullptr;
  GB() {} GB(const GB &) = delete;
  void alloc(size_t len, bool at_end, uint8_t fill) {
    size_t need = (len + 4095) / 4096; if (!need) need = 1;
    if (need > pages) { if (base) munmap(base, (pages + 2) * 4096); base = (uint8_t *)mmap(0, (need + 2) * 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (base == MAP_FAILED) { fprintf(stderr, "mmap\n"); exit(3); } pages = need; }
    // exactly `need` accessible pages, guard page before and after
    mprotect(base, (pages + 2) * 4096, PROT_NONE); mprotect(base + 4096, need * 4096, PROT_READ | PROT_WRITE); memset(base + 4096, fill, need * 4096);
    n = len; used = need; p = at_end ? base + 4096 + need * 4096 - len : base + 4096; this->fill = fill; if (!len && !at_end) p = base + 4096;
  }
  void put(const bytes &b, bool at_end, uint8_t fill) { alloc(b.size(), at_end, fill); if (b.size()) memcpy(p, b.data(), b.size()); }
  void ro() { mprotect(base + 4096, used * 4096, PROT_READ); } void rw() { mprotect(base + 4096, used * 4096, PROT_READ | PROT_WRITE); } void none() { mprotect(base + 4096, used * 4096, PROT_NONE); }
  // bytes of the accessible pages outside the buffer still hold the fill pattern
  long slack_changed() const { for (uint8_t *q = base + 4096; q < base + 4096 + used * 4096; q++) if ((q < p || q >= p + n) && *q != fill) return q - p; return -999999; }
  bytes get() const { return bytes(p, p + n); }
  size_t used = 0; uint8_t fill = 0;
};
#include <unistd.h>
// a message longer than 2^32 bytes: periodic contents in aliased pages, so that only address space is needed
struct Alias {
  uint8_t *base = nullptr; size_t pre, len, per = 2u << 20; int fd;
  Alias(size_t pre, size_t len) : pre((pre + 4095) / 4096 * 4096), len(len) {
    fd = memfd_create("m", 0); if (ftruncate(fd, per)) exit(3); size_t tot = this->pre + (len + per - 1) / per * per + 4096;
    base = (uint8_t *)mmap(0, tot, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (base == MAP_FAILED) { fprintf(stderr, "mmap\n"); exit(3); }
    for (size_t o = 0; o < len; o += per) if (mmap(base + this->pre + o, per, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { fprintf(stderr, "mmap2\n"); exit(3); }
  }
  void guard_end() { mprotect(base + pre + len, 4096, PROT_NONE); } // len a multiple of the page size
  void copy(const bytes &b) { memcpy(at(0), b.data(), std::min(b.size(), len)); }
  uint8_t *at(size_t before) { return base + pre - before; }
};
