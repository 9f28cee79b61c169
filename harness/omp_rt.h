// Controlled OpenMP runtime: replaces libgomp and libtsan for a program compiled with
// -fopenmp -fsanitize=thread. Every parallel region runs on real threads of which exactly one runs at a
// time; which one is decided by the explorer at every scheduling point. All memory accesses of the
// instrumented code inside of parallel regions are recorded and checked for races.
#pragma once
#include <cstdint>
#include <string>
namespace ort
{
// The explorer: all(n) explores all answers, preempt(n) counts every answer but 0 as one preemption
struct Explorer { int (*all) (int n); int (*preempt) (int n); };
void begin (int threads, Explorer e); // all regions from here on run on this many threads
std::string end ();                   // back to one thread; returns the first race found, or an empty string
void yield ();                        // an explicit scheduling point
struct Stats { uint64_t regions, points, accesses, schedule; };
Stats stats ();                       // since begin()
}
