// Linked into every stage shared object: the stage's own C++ standard streams.
#define SIM_NO_MACROS
#include "prelude.h"
#include <streambuf>
#include <cstring>
#include <unistd.h>
#include <new>

extern "C" {
  ssize_t sim_stage_read(int fd, void* buf, size_t n);
  ssize_t sim_stage_write(int fd, const void* buf, size_t n);
  unsigned sim_stage_random(void);
  size_t sim_stage_bufsize(int fd);
}

namespace {
struct SimBuf : std::streambuf {
  int fd; char b[8192]; size_t cap;
  explicit SimBuf(int f) : fd(f), cap(0) {}
  void arm() {
    if (cap) return;
    cap = sim_stage_bufsize(fd);
    if (cap < 1) cap = 1;
    if (cap > sizeof b) cap = sizeof b;
    if (fd != 0) setp(b, b + cap);
  }
  int_type underflow() override {
    arm();
    if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
    ssize_t n = sim_stage_read(fd, b, cap);
    if (n <= 0) return traits_type::eof();
    setg(b, b, b + n);
    return traits_type::to_int_type(*gptr());
  }
  bool drain() {
    if (fd == 0) return true;
    size_t n = pptr() - pbase();
    char* base = pbase();
    // hand the bytes over before clearing: a blocked write keeps them
    size_t off = 0;
    while (off < n) {
      ssize_t w = sim_stage_write(fd, base + off, n - off);
      if (w <= 0) { setp(b, b + cap); return false; }
      off += w;
    }
    setp(b, b + cap);
    return true;
  }
  int_type overflow(int_type c) override {
    arm();
    if (fd == 0) return traits_type::eof();
    if (!drain()) return traits_type::eof();
    if (!traits_type::eq_int_type(c, traits_type::eof())) { *pptr() = traits_type::to_char_type(c); pbump(1); }
    return traits_type::not_eof(c);
  }
  int sync() override { arm(); return drain() ? 0 : -1; }
};
alignas(16) char ib_[sizeof(SimBuf)], ob_[sizeof(SimBuf)], eb_[sizeof(SimBuf)];
alignas(16) char in_[sizeof(std::istream)], out_[sizeof(std::ostream)], err_[sizeof(std::ostream)], log_[sizeof(std::ostream)];
struct Init {
  Init() {
    auto ib = new (ib_) SimBuf(0); auto ob = new (ob_) SimBuf(1); auto eb = new (eb_) SimBuf(2);
    auto in = new (in_) std::istream(ib); auto out = new (out_) std::ostream(ob);
    auto err = new (err_) std::ostream(eb); new (log_) std::ostream(eb);
    in->tie(out); err->setf(std::ios::unitbuf); err->tie(out);
  }
};
Init init_ __attribute__((init_priority(101)));
}

namespace std {
  istream& sim_cin_ = reinterpret_cast<istream&>(in_);
  ostream& sim_cout_ = reinterpret_cast<ostream&>(out_);
  ostream& sim_cerr_ = reinterpret_cast<ostream&>(err_);
  ostream& sim_clog_ = reinterpret_cast<ostream&>(log_);
  sim_random_device::result_type sim_random_device::operator()() { return sim_stage_random(); }
}

extern "C" __attribute__((visibility("default"))) void sim_dso_flush(void) {
  std::sim_cout_.flush();
  std::sim_clog_.flush();
}
