// The operating system's answers, enumerated: entropy file, its descriptor number, its contents, the clock.
#pragma once
#include "vh.h"
#include <time.h>
namespace env {
extern bool on;                 // answer the library's calls here; off: pass them to the system
extern int open_answer;         // >= 0: descriptor number the next open returns; < 0: -errno
extern int read_answer;         // -1000: as much as asked; >= 0: that many bytes; other negative: -errno
extern int open_eintr, read_eintr; // the first so many calls fail with EINTR
extern uint8_t ent[256];        // entropy delivered (repeats)
extern int ent_pos;
extern timespec clk;
extern int opens, closes, reads, live, bad, calls; // calls: every answered call
extern bool rdwr;
void reset();                   // defaults, on
void entropy(uint64_t seed);    // fill ent from a number
struct On { On() { reset(); on = true; } ~On() { on = false; } };
}
