// Type-erased message kinds for the MPI scenarios.
#pragma once
#include "common.hpp"

struct Kind {
   const char* name;
   // bit-exact print of the value made from a seed
   std::string (*expect)(uint64_t seed);
   std::string (*blank)();
   void (*send)(const TAT::mpi_t& m, uint64_t seed, int destination, int variant);
   std::string (*receive)(const TAT::mpi_t& m, int source, int variant);
   std::string (*send_receive)(const TAT::mpi_t& m, bool own, uint64_t seed, int source, int destination, int variant);
   std::string (*broadcast)(const TAT::mpi_t& m, bool own, uint64_t seed, int root, int variant);
   // sums integer-valued values of one common shape; ordinary: arbitrary floating point values instead
   std::string (*reduce)(const TAT::mpi_t& m, uint64_t shape, uint64_t seed, int root, int variant, bool ordinary);
   std::string (*expect_sum)(uint64_t shape, const std::vector<uint64_t>& seeds);
};

void kinds_No(std::vector<Kind>&);
void kinds_Z2(std::vector<Kind>&);
void kinds_U1(std::vector<Kind>&);
void kinds_Fermi(std::vector<Kind>&);
void kinds_FermiZ2(std::vector<Kind>&);
void kinds_FermiU1(std::vector<Kind>&);
void kinds_plain(std::vector<Kind>&);
