#include "mat.h"
