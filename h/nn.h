// common prologue of every harness translation unit
#pragma once
#include "nntl_port.h"
#include <iostream>
#define STDCOUT(args) ::std::cout << args
#define STDCOUTL(args) STDCOUT(args) << ::std::endl
#include "vp.h"
