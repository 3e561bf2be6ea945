// Memory of the compiled Python module under the simulator's control: contents of fresh memory, reuse of addresses,
// guards and accounting. Preloaded, so that every operator new of the module ends here.
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <sys/mman.h>
#include <unistd.h>

namespace {
   constexpr size_t arena_size = size_t(1) << 32;
   constexpr size_t head = 64, tail = 64, unit = 64, classes = 4096;
   constexpr uint64_t live_magic = 0x6c6976656c697665, dead_magic = 0x6465616464656164;
   struct Head {
      uint64_t magic, size, span;
      Head* next;
   };
   char *arena, *top;
   Head *first_free[classes], *last_free[classes];
   int fill_byte = 0, mode = 0;
   long live_count, live_bytes;

   [[noreturn]] void die(const char* what) {
      (void)!write(2, what, strlen(what));
      (void)!write(2, "\n", 1);
      abort();
   }
   void check_tail(Head* h) {
      unsigned char* p = reinterpret_cast<unsigned char*>(h) + head + h->size;
      unsigned char* end = reinterpret_cast<unsigned char*>(h) + h->span;
      for (; p < end; p++) {
         if (*p != 0xa7) {
            die("memory: written behind an object");
         }
      }
   }
   void* get(size_t size) {
      if (!arena) {
         void* p = mmap(reinterpret_cast<void*>(0x100000000000), arena_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0) /* always the same addresses */;
         if (p == MAP_FAILED) {
            die("memory: no arena");
         }
         arena = top = static_cast<char*>(p);
      }
      size_t span = (head + size + tail + unit - 1) / unit * unit;
      size_t which = span / unit;
      Head* h = nullptr;
      if (which < classes && mode != 0 && first_free[which]) {
         h = first_free[which];
         first_free[which] = h->next;
         if (h->magic != dead_magic) {
            die("memory: a released object was written to");
         }
      } else {
         if (size_t(arena + arena_size - top) < span) {
            throw std::bad_alloc();
         }
         h = reinterpret_cast<Head*>(top);
         top += span;
      }
      *h = {live_magic, size, span, nullptr};
      char* p = reinterpret_cast<char*>(h) + head;
      memset(p, fill_byte, size);
      memset(p + size, 0xa7, span - head - size);
      live_count++;
      live_bytes += long(size);
      return p;
   }
   void put(void* p) {
      if (!p) {
         return;
      }
      Head* h = reinterpret_cast<Head*>(static_cast<char*>(p) - head);
      if (reinterpret_cast<char*>(h) < arena || reinterpret_cast<char*>(h) >= top || h->magic != live_magic) {
         die("memory: released what is not in use");
      }
      check_tail(h);
      live_count--;
      live_bytes -= long(h->size);
      memset(p, 0xdb, h->size);
      h->magic = dead_magic;
      size_t which = h->span / unit;
      if (which < classes) {
         if (mode == 2 && first_free[which]) {
            last_free[which]->next = h; // the oldest is used first
            h->next = nullptr;
            last_free[which] = h;
         } else {
            h->next = first_free[which];
            if (!h->next) {
               last_free[which] = h;
            }
            first_free[which] = h;
         }
      }
   }
} // namespace

extern "C" {
__attribute__((visibility("default"))) void bm_config(int fill, int m) {
   fill_byte = fill;
   mode = m;
   for (size_t i = 0; i < classes; i++) {
      first_free[i] = last_free[i] = nullptr;
   }
}
__attribute__((visibility("default"))) void bm_fill(int fill) {
   fill_byte = fill;
}
__attribute__((visibility("default"))) long bm_live() {
   return live_count;
}
__attribute__((visibility("default"))) long bm_bytes() {
   return live_bytes;
}
// 0: all objects in use have their guards and, without reuse, nothing was written to released ones
__attribute__((visibility("default"))) int bm_check() {
   for (char* p = arena; p < top;) {
      Head* h = reinterpret_cast<Head*>(p);
      if (h->magic == live_magic) {
         check_tail(h);
      } else if (h->magic == dead_magic) {
         for (size_t i = 0; i < h->size; i++) {
            if (static_cast<unsigned char>(p[head + i]) != 0xdb) {
               return 1;
            }
         }
      } else {
         return 2;
      }
      p += h->span;
   }
   return 0;
}
}

#define OUT __attribute__((visibility("default")))
OUT void* operator new(size_t n) { return get(n); }
OUT void* operator new[](size_t n) { return get(n); }
OUT void* operator new(size_t n, std::align_val_t) { return get(n); }
OUT void* operator new[](size_t n, std::align_val_t) { return get(n); }
OUT void* operator new(size_t n, const std::nothrow_t&) noexcept {
   try {
      return get(n);
   } catch (...) {
      return nullptr;
   }
}
OUT void* operator new[](size_t n, const std::nothrow_t&) noexcept {
   try {
      return get(n);
   } catch (...) {
      return nullptr;
   }
}
OUT void operator delete(void* p) noexcept { put(p); }
OUT void operator delete[](void* p) noexcept { put(p); }
OUT void operator delete(void* p, size_t) noexcept { put(p); }
OUT void operator delete[](void* p, size_t) noexcept { put(p); }
OUT void operator delete(void* p, std::align_val_t) noexcept { put(p); }
OUT void operator delete[](void* p, std::align_val_t) noexcept { put(p); }
OUT void operator delete(void* p, size_t, std::align_val_t) noexcept { put(p); }
OUT void operator delete[](void* p, size_t, std::align_val_t) noexcept { put(p); }
OUT void operator delete(void* p, const std::nothrow_t&) noexcept { put(p); }
OUT void operator delete[](void* p, const std::nothrow_t&) noexcept { put(p); }
