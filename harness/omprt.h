// Interface of the controlled thread runtime (omprt.cc) that replaces libgomp, libtsan and QMT in the checks of threads.
#ifndef VF_OMPRT_H
#define VF_OMPRT_H
#include <stdint.h>
extern "C" {
// threads: what a team may have at most; team: how many a region gets (0: all); order: 0 threads go on in ascending
// order between synchronisations, 1 descending; explore: every order of the synchronisations of every region
void vft_policy(int threads, int team, int order, int explore);
void vft_split(int kind);            // how QMT's call splits the sites: 0 evenly, 1 everything to the last thread, 2 everything to the first
struct VftStats { uint64_t regions, accesses, syncs, schedules, choices, capped, pairs; };
struct VftStats vft_stats(void);
void vft_reset_stats(void);
void vft_report(const char* kind, const char* msg);     // supplied by the harness: a race, a deadlock, an outcome that depends on the order
}
#endif
