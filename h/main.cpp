#include "vp.h"
#include <thread>
// the library sizes its thread pools by this; generated cases choose the value
int vp_hwc = 4;
unsigned std::thread::hardware_concurrency() noexcept { return (unsigned)vp_hwc; }
int main(int c, char** v) { return vp::main_(c, v); }
