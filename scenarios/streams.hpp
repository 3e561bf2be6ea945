// Simulated files and pipes behind std::streambuf.
#pragma once
#include "common.hpp"

namespace h {
   // Output: `buffer` bytes of volatile buffer (0: unbuffered), then durable storage `name`.
   // After `capacity` durable bytes the device is full or broken: mode 0 fails the call, mode 1 throws from the device.
   struct SimOut : std::streambuf {
      std::string name;
      size_t buffer, capacity;
      int mode;
      std::string pending;
      size_t durable = 0;
      bool failed = false;
      uint64_t calls = 0;
      SimOut(const std::string& name, size_t buffer, size_t capacity = size_t(-1), int mode = 0) : name(name), buffer(buffer), capacity(capacity), mode(mode) {
         sim_disk_write(name.c_str(), "", 0);
      }
      bool push() {
         size_t n = pending.size();
         size_t room = capacity - durable;
         size_t k = n < room ? n : room;
         sim_disk_append(name.c_str(), pending.data(), k);
         durable += k;
         if (k < n) {
            if (!failed) {
               sim_fault(mode ? "write_error_thrown" : k ? "short_write" : "disk_full");
            }
            failed = true;
            pending.clear();
            return false;
         }
         pending.clear();
         return true;
      }
      std::streamsize xsputn(const char* s, std::streamsize n) override {
         calls++;
         pending.append(s, size_t(n));
         if (pending.size() > buffer) {
            if (!push()) {
               if (mode) {
                  throw std::ios_base::failure("simulated device error");
               }
               return 0;
            }
         }
         return n;
      }
      int_type overflow(int_type c) override {
         if (traits_type::eq_int_type(c, traits_type::eof())) {
            return traits_type::not_eof(c);
         }
         char x = traits_type::to_char_type(c);
         return xsputn(&x, 1) == 1 ? c : traits_type::eof();
      }
      int sync() override {
         if (!push()) {
            return -1;
         }
         return 0;
      }
   };

   // Input: delivers the bytes in pieces of at most `piece`; ends after `end` bytes with end-of-file (mode 0) or a device error (mode 1).
   struct SimIn : std::streambuf {
      std::string data;
      size_t piece, end;
      int mode;
      size_t at = 0;
      uint64_t polls = 0; // reads attempted after the end
      bool hit = false;
      SimIn(std::string d, size_t piece, size_t end = size_t(-1), int mode = 0) : data(std::move(d)), piece(piece ? piece : 1), end(end), mode(mode) {
         if (this->end > data.size()) {
            this->end = data.size();
         }
      }
      int_type underflow() override {
         if (at >= end) {
            hit = true;
            if (++polls > 100000) {
               sim_fail("no-termination", "reader polled %llu times after the end of its input", (unsigned long long)polls);
            }
            if (mode) {
               throw std::ios_base::failure("simulated device error");
            }
            return traits_type::eof();
         }
         size_t n = std::min(piece, end - at);
         setg(data.data() + at, data.data() + at, data.data() + at + n);
         at += n;
         sim_yield("read");
         return traits_type::to_int_type(*gptr());
      }
      size_t consumed() const {
         return at - size_t(egptr() - gptr());
      }
   };
   inline size_t choose_piece(const char* tag) {
      static const size_t pieces[] = {65536, 1, 2, 3, 7, 8, 9, 64, 500};
      return pieces[sim_choose(9, tag)];
   }
   inline size_t choose_buffer(const char* tag) {
      static const size_t buffers[] = {65536, 0, 1, 7, 64, 4096};
      return buffers[sim_choose(6, tag)];
   }
} // namespace h
