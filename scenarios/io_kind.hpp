// Type-erased storable values for the io scenarios.
#pragma once
#include "streams.hpp"

struct IoKind {
   const char* name;
   bool text; // has a text form
   std::string (*expect)(uint64_t seed, int style);
   // variant: which public call writes / reads, and what the target held before
   void (*write)(std::ostream& out, uint64_t seed, int style, int variant);
   std::string (*read)(std::istream& in, int variant);
   std::string (*dump)(uint64_t seed, int style);
   std::string (*load)(const std::string& data, int variant);
   void (*print)(std::ostream& out, uint64_t seed, int style);
   std::string (*show)(uint64_t seed, int style);
   std::string (*scan)(std::istream& in, int variant);
};
void io_No(std::vector<IoKind>&);
void io_Z2(std::vector<IoKind>&);
void io_U1(std::vector<IoKind>&);
void io_Fermi(std::vector<IoKind>&);
void io_FermiZ2(std::vector<IoKind>&);
void io_FermiU1(std::vector<IoKind>&);
void io_plain(std::vector<IoKind>&);
