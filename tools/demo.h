#pragma once
#include "nntl_port.h"
#include <iostream>
#define STDCOUT(args) ::std::cout << args
#define STDCOUTL(args) STDCOUT(args) << ::std::endl
#include <cstdio>
#include <cmath>
#include <vector>
#define CHECK(c) do { if (!(c)) { printf("demo: %s is false (line %d)\n", #c, __LINE__); return 1; } } while (0)
#include <thread>
unsigned std::thread::hardware_concurrency() noexcept { return 4; }
#include "nntl/math.h"
#include "nntl/interfaces.h"
#include "nntl/interface/math/mathn.h"
typedef nntl::math::smatrix<float> M;
typedef nntl::threads::Workers<float, nntl::numel_cnt_t> Thr;
struct MM : public nntl::math::_MathN<float, Thr, nntl::imem::imemmgr, nntl::math::_impl::MATHN_THR<float>, MM> { MM() { preinit(1 << 18); init(); } };
