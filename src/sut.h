// The code under test, as seen through its public headers.
#pragma once
#include <glib.h>
#include <time.h>
#include <stdint.h>
#include <unistd.h>
#include <sys/types.h>
extern "C" {
#include "state.h"
#include "exe.h"
#include "map.h"
#include "markov.h"
#include "vomm.h"
#include "proc.h"
#include "spy.h"
#include "conf.h"
#include "state_io.h"
#include "model_utils.h"
#include "readahead.h"
#include "prophet.h"
#include "log.h"
#include "power.h"
int preload_main(int argc, char** argv);
}
#undef bytes
#undef kilobytes
#undef seconds
#undef minutes
#undef hours
#undef processes
#undef signed_integer_percent
