#include "dv_gsl.h"
