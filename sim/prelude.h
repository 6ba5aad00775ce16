// Force-included into every apertium translation unit built for the simulator.
// It moves the C++ standard streams, which are process-global, onto the
// per-stage file descriptors the simulator owns.  C stdio needs no macro: the
// simulator swaps stdin/stdout/stderr whenever it switches stages.
#ifndef SIM_PRELUDE_H
#define SIM_PRELUDE_H
#ifdef __cplusplus
// Bounds assertions on, but tolerant of the "&v[0] / &v.front() of an empty
// vector" idiom, which is harmless in the shipped build.
#include <bits/c++config.h>
#include <debug/assertions.h>
#undef __glibcxx_requires_subscript
#define __glibcxx_requires_subscript(_N) __glibcxx_assert(_N <= this->size())
#undef __glibcxx_requires_nonempty
#define __glibcxx_requires_nonempty() __glibcxx_assert(__builtin_strcmp(__func__,"front")==0 || __builtin_strcmp(__func__,"back")==0 || !this->empty())
#include <iostream>
#include <random>
namespace std {
  extern istream& sim_cin_;
  extern ostream& sim_cout_;
  extern ostream& sim_cerr_;
  extern ostream& sim_clog_;
  // randomness seam: replaces std::random_device
  struct sim_random_device {
    typedef unsigned int result_type;
    sim_random_device() {}
    template<class T> explicit sim_random_device(T const&) {}
    static constexpr result_type min() { return 0; }
    static constexpr result_type max() { return 0xffffffffu; }
    result_type operator()();
    double entropy() const { return 0; }
  };
}
#ifndef SIM_NO_MACROS
#define cin sim_cin_
#define cout sim_cout_
#define cerr sim_cerr_
#define clog sim_clog_
#define random_device sim_random_device
#endif
#endif
#endif
