// Type-erased tensor families for the memory scenarios.
#pragma once
#include "common.hpp"

struct MemKind {
   const char* name;
   void (*a01)(); // failing allocations inside one call
   void (*a02)(); // histories over handles that share data
   void (*a03)(); // the same call under different memory conditions
};
void mem_No(std::vector<MemKind>&);
void mem_Z2(std::vector<MemKind>&);
void mem_U1(std::vector<MemKind>&);
void mem_Fermi(std::vector<MemKind>&);
void mem_FermiZ2(std::vector<MemKind>&);
void mem_FermiU1(std::vector<MemKind>&);
