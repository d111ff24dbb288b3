#include "sse_mult_su3_nn.h"
