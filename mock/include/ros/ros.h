// A stand-in for the part of roscpp that generated tests use.  It records what the test does and feeds it
// the events of one schedule; see ../verif_mock.h.
#pragma once
#include "verif_mock.h"
