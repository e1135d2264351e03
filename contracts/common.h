// Shared by all contract files. Compiled twice: against the extracted sources
// (dv::Real is a term, obligations go to the provers) and, for the replay of a
// counterexample, against the unmodified /repo (dv::Real is double).
#pragma once
#ifdef DV_NATIVE
#include "dv_native.h"
#else
#include "dv.h"
#endif
using dv::Real;
using Vec = std::vector<Real>;
using Cx  = std::complex<Real>;
