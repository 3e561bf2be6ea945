// Internals shared by core.cpp and mpi.cpp of the simulator.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <string>
#include <vector>

#include "include/simapi.h"

namespace sim {
   constexpr int max_ranks = 16;

   // While alive, allocations belong to the simulator, are never failed and not accounted to a rank.
   struct Inside {
      bool saved;
      Inside();
      ~Inside();
   };

   extern int current; // rank whose code runs now, -1 for the scheduler
   extern int world;   // number of ranks in this run

   struct Swarm {        // per-run configuration, drawn first from the PRNG
      int policy;        // 0 uniform, 1 favour the running rank, 2 starve some ranks, 3 random priorities, 4 deliver late, 5 deliver early
      uint32_t slow;     // bit set of starved ranks
      int send_mode;     // 0 buffered, 1 synchronous, 2 by size, 3 coin per message
      uint32_t send_limit;
      bool stall_links;
      bool stall_ranks;
      bool collective_early; // collectives may complete early where MPI allows it
      bool output_unbuffered[3];
   };
   extern Swarm swarm;

   // Blocks the calling rank until the predicate holds (also a scheduling point).
   void block(const char* what, std::function<bool()> predicate);
   void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
   void mpi_reset(int ranks);
   // in-flight messages the scheduler may deliver
   int mpi_deliverable();          // number of channels with an undelivered head
   void mpi_deliver(int index);    // deliver the index-th one
   std::string mpi_describe();     // for deadlock reports
   int mpi_channel_stalled(int index, uint64_t step); // steps left
} // namespace sim
