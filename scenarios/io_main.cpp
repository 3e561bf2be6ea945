// Scenarios s01..s05: storage of values on simulated files across simulated process lives.
#define TAT_NOTHING_BITS 7
#include "io_kind.hpp"
using namespace h;

namespace {
   std::vector<IoKind> kinds;
   struct Item {
      uint32_t kind, seed, style, variant, variant2;
   };
   std::vector<Item> plan(int longest, bool text_only, std::initializer_list<uint32_t> styles) {
      std::vector<Item> items;
      std::string raw;
      if (look("plan", raw)) {
         items.resize(raw.size() / sizeof(Item));
         memcpy(items.data(), raw.data(), raw.size());
         return items;
      }
      uint32_t n = 1 + sim_choose(longest, "objects");
      for (uint32_t i = 0; i < n; i++) {
         Item x{};
         do {
            x.kind = sim_choose(uint32_t(kinds.size()), "kind");
         } while (text_only && !kinds[x.kind].text && (x.kind = uint32_t(kinds.size()) - 1, false));
         if (text_only && !kinds[x.kind].text) {
            x.kind = uint32_t(kinds.size()) - 1;
         }
         x.seed = sim_choose(1u << 20, "value");
         x.style = *(styles.begin() + sim_choose(uint32_t(styles.size()), "style"));
         x.variant = sim_choose(12, "write call");
         x.variant2 = sim_choose(12, "read call");
         items.push_back(x);
      }
      raw.assign(reinterpret_cast<const char*>(items.data()), items.size() * sizeof(Item));
      post("plan", raw);
      return items;
   }
   void differs(const char* cls, const Item& x, size_t i, const std::string& how) {
      sim_fail(cls, "object %zu (%s) %s", i, kinds[x.kind].name, how.c_str());
   }

   // ------------------------------------------------------------------ s01: exact binary round trip
   void s01() {
      auto items = plan(6, false, {2, 1, 0});
      const std::string trailer = "\x5atrailer";
      if (sim_incarnation() == 0) {
         SimOut buf("file", choose_buffer("write buffer"));
         std::ostream out(&buf);
         for (auto& x : items) {
            kinds[x.kind].write(out, x.seed, x.style, x.variant);
         }
         out << trailer << std::flush;
         if (!out) {
            sim_fail("write", "writing to a healthy file failed");
         }
         sim_count("objects", items.size());
         sim_nontrivial();
         if (sim_coin(1, 2, "restart before reading")) {
            sim_restart_world(); // a new process reads what the old one stored
         }
      }
      std::string data;
      disk_read("file", data);
      SimIn buf(data, choose_piece("read piece"));
      std::istream in(&buf);
      for (size_t i = 0; i < items.size(); i++) {
         auto& x = items[i];
         std::string got = kinds[x.kind].read(in, x.variant2);
         if (!in) {
            differs("round-trip", x, i, "could not be read back");
         }
         if (got != kinds[x.kind].expect(x.seed, x.style)) {
            differs("round-trip", x, i, "is not the value that was written");
         }
         if (kinds[x.kind].dump && x.variant2 % 3 == 0) {
            std::string again = kinds[x.kind].load(kinds[x.kind].dump(x.seed, x.style), x.variant);
            if (again != got) {
               differs("round-trip", x, i, "differs after dump and load");
            }
         }
      }
      std::string rest(trailer.size(), 0);
      in.read(rest.data(), rest.size());
      if (rest != trailer || buf.consumed() != data.size()) {
         sim_fail("framing", "reading the objects did not end exactly where writing them had ended");
      }
   }

   // ------------------------------------------------------------------ s02: interrupted storage is noticed
   void s02() {
      auto items = plan(5, false, {1, 2, 0});
      // where each object ends, from an undisturbed copy
      std::vector<size_t> ends;
      std::string full;
      {
         std::ostringstream whole;
         for (auto& x : items) {
            kinds[x.kind].write(whole, x.seed, x.style, 0);
            ends.push_back(whole.str().size());
         }
         full = whole.str();
      }
      int fault = sim_incarnation() == 0 ? sim_choose(6, "fault") : 0;
      std::string data;
      size_t end;
      int mode = 0;
      if (sim_incarnation() == 0 && fault >= 4) {
         // the disk fills up or breaks while writing; then the process dies
         size_t capacity = sim_choose(uint32_t(full.size()), "capacity");
         SimOut buf("file", choose_buffer("write buffer"), capacity, fault == 5);
         std::ostream out(&buf);
         for (size_t i = 0; i < items.size(); i++) {
            auto& x = items[i];
            kinds[x.kind].write(out, x.seed, x.style, x.variant);
            out.flush();
            if (ends[i] > capacity) {
               if (out) {
                  differs("write-failure-hidden", x, i, "did not fit on the device but the stream reports success");
               }
               break;
            }
            if (!out) {
               differs("write", x, i, "fits on the device but the stream reports failure");
            }
         }
         sim_restart_world();
      }
      if (sim_incarnation() == 0) {
         data = full;
         end = sim_choose(uint32_t(full.size()), "cut");
         mode = fault == 1;
         sim_fault(mode ? "read_error" : "truncation");
      } else {
         disk_read("file", data);
         if (full.compare(0, data.size(), data.substr(0, data.size())) != 0 && data.size() > full.size()) {
            sim_fail("write", "the file is longer than what was written");
         }
         end = data.size();
      }
      SimIn buf(data, choose_piece("read piece"), end, mode);
      std::istream in(&buf);
      for (size_t i = 0; i < items.size(); i++) {
         auto& x = items[i];
         bool complete = ends[i] <= end;
         bool thrown = false;
         std::string got;
         uint64_t denied = sim_alloc_denied(), live = sim_alloc_live_bytes();
         (void)live;
         try {
            got = kinds[x.kind].read(in, x.variant2);
         } catch (const std::exception&) {
            thrown = true;
         }
         bool failed = thrown || !in;
         if (complete) {
            if (failed) {
               differs("complete-object-lost", x, i, "was completely stored but cannot be read back");
            }
            if (got != kinds[x.kind].expect(x.seed, x.style)) {
               differs("round-trip", x, i, "is not the value that was written");
            }
            sim_count("complete_before_fault", 1);
            continue;
         }
         if (!failed) {
            differs("silent-truncation", x, i, "was cut short but reading it reported success");
         }
         if (sim_alloc_denied() != denied) {
            differs("runaway", x, i, "was cut short and reading it asked for an absurd amount of memory");
         }
         sim_count(thrown ? "reported_by_exception" : "reported_by_stream", 1);
         break;
      }
      {
         // the same through the string interface
         auto& x = items[0];
         if (kinds[x.kind].load) {
            std::string whole = kinds[x.kind].dump(x.seed, x.style);
            size_t cut = sim_choose(uint32_t(whole.size()), "load cut");
            bool thrown = false;
            try {
               (void)kinds[x.kind].load(whole.substr(0, cut), x.variant);
            } catch (const std::exception&) {
               thrown = true;
            }
            if (!thrown) {
               differs("silent-truncation", x, 0, "was loaded from a cut string without an error");
            }
            sim_count("load_cut", 1);
         }
      }
      sim_alloc_check();
   }

   // ------------------------------------------------------------------ s03: text round trip
   void s03() {
      auto items = plan(4, true, {0, 3, 1});
      if (sim_incarnation() == 0) {
         SimOut buf("file", choose_buffer("write buffer"));
         std::ostream out(&buf);
         for (auto& x : items) {
            out.precision(x.style == 0 ? 6 : 17);
            kinds[x.kind].print(out, x.seed, x.style);
            out << (x.variant % 2 ? "\n" : "");
         }
         out.flush();
         if (!out) {
            sim_fail("write", "writing to a healthy file failed");
         }
         sim_count("objects", items.size());
         sim_nontrivial();
         if (sim_coin(1, 2, "restart before reading")) {
            sim_restart_world();
         }
      }
      std::string data;
      disk_read("file", data);
      SimIn buf(data, choose_piece("read piece"));
      std::istream in(&buf);
      for (size_t i = 0; i < items.size(); i++) {
         auto& x = items[i];
         std::string got = kinds[x.kind].scan(in, x.variant2);
         if (in.fail()) {
            differs("text-round-trip", x, i, "could not be read back from its text form");
         }
         if (got != kinds[x.kind].expect(x.seed, x.style)) {
            differs("text-round-trip", x, i, "read from its text form is not the value that was printed");
         }
         if (x.style == 0) {
            std::istringstream shown(kinds[x.kind].show(x.seed, x.style));
            if (kinds[x.kind].scan(shown, 0) != got) {
               differs("text-round-trip", x, i, "differs when read from show()");
            }
         }
      }
   }

   // ------------------------------------------------------------------ s04: broken text ends in an error, in bounded effort
   void s04() {
      auto items = plan(1, true, {0, 1});
      auto& x = items[0];
      std::ostringstream whole;
      kinds[x.kind].print(whole, x.seed, x.style);
      std::string text = whole.str();
      int fault = sim_choose(4, "fault");
      size_t end = text.size();
      // the last character that carries data
      size_t last = text.find_last_of(']');
      bool must_fail = false;
      if (fault <= 1) {
         end = sim_choose(uint32_t(last + 1), "cut");
         must_fail = true;
         sim_fault("truncation");
      } else if (fault == 2) {
         int n = 1 + sim_choose(3, "edits");
         for (int i = 0; i < n; i++) {
            size_t p = sim_choose(uint32_t(text.size()), "edit at");
            switch (sim_choose(3, "edit kind")) {
               case 0: text[p] = "x,[]{}:-+i0\n \x1b"[sim_choose(14, "character")]; break;
               case 1: text.erase(p, 1 + sim_choose(5, "erase")); break;
               default: text.insert(p, text.substr(sim_choose(uint32_t(text.size()), "from"), 1 + sim_choose(8, "copy"))); break;
            }
            if (text.empty()) {
               text = "[";
            }
         }
         end = text.size();
         sim_fault("malformed_text");
      } else {
         // an absurdly long token
         size_t p = text.find_first_of("[");
         text.insert(p + 1, std::string(200 + sim_choose(4000, "token length"), "a7-x"[sim_choose(4, "token")]));
         end = text.size();
         sim_fault("long_token");
      }
      SimIn buf(text, choose_piece("read piece"), end, fault == 1);
      std::istream in(&buf);
      bool thrown = false;
      uint64_t denied = sim_alloc_denied();
      try {
         kinds[x.kind].scan(in, x.variant2);
      } catch (const std::exception&) {
         thrown = true;
      }
      if (sim_alloc_denied() != denied) {
         differs("runaway", x, 0, "in broken text form made the reader ask for an absurd amount of memory");
      }
      if (must_fail && !thrown && !in.fail()) {
         differs("silent-truncation", x, 0, "in text form was cut short but reading it reported success");
      }
      sim_count(thrown ? "reported_by_exception" : in.fail() ? "reported_by_stream" : "accepted", 1);
      sim_alloc_check();
   }

   // ------------------------------------------------------------------ s05: the table of compact names across processes
   std::string some_name(Rng& r) {
      std::string s;
      int n = r.coin(1, 8) ? 60 + r.below(300) : 1 + r.below(8);
      for (int i = 0; i < n; i++) {
         s.push_back(char(r.coin(1, 12) ? r.below(256) : 'a' + r.below(26)));
      }
      return s;
   }
   using NamedTensor = Tensor<double, NoSymmetry, FastName>;
   NamedTensor named(Rng& r, const std::vector<std::string>& pool) {
      std::vector<FastName> names;
      std::vector<Edge<NoSymmetry>> edges;
      int rank = r.below(5);
      int start = r.below(uint32_t(pool.size()));
      for (int i = 0; i < rank && i < int(pool.size()); i++) {
         names.push_back(FastName(pool[(start + i) % pool.size()]));
         edges.push_back({Size(1 + r.below(3))});
      }
      NamedTensor t(names, edges);
      fill(t, r, 1);
      return t;
   }
   void check_table(const char* when) {
      // the public view of the table: a name converts to its text and the same text gives the same name
      for (size_t i = 0; i < fast_name_dataset.id_to_name.size(); i++) {
         FastName n{int(i)};
         const std::string& text = n;
         if (FastName(text) != n) {
            sim_fail("name-table", "%s: name number %zu has text \"%s\" which is another name's text", when, i, text.c_str());
         }
      }
   }
   void s05() {
      uint64_t seed = shared_decision("names seed", 1u << 20);
      uint64_t count = 1 + shared_decision("names count", 40);
      Rng r(seed);
      std::vector<std::string> pool;
      std::set<std::string> seen;
      while (pool.size() < count) {
         auto s = some_name(r);
         if (seen.insert(s).second) {
            pool.push_back(s);
         }
      }
      uint64_t tensors = 1 + shared_decision("tensors", 4);
      if (sim_incarnation() == 0) {
         // an order of registration of its own, possibly different from the reader's
         Rng order(sim_choose(1u << 16, "registration order"));
         for (size_t i = 0; i < pool.size(); i++) {
            (void)FastName(pool[order.below(uint32_t(pool.size()))]);
         }
         SimOut buf("tensors", choose_buffer("write buffer"));
         std::ostream out(&buf);
         Rng values(seed + 1);
         for (uint64_t i = 0; i < tensors; i++) {
            out < named(values, pool);
         }
         out.flush();
         check_table("writer");
         std::string table = dump_fast_name_dataset();
         if (sim_coin(1, 2, "table on a stream")) {
            SimOut tbuf("table", choose_buffer("table buffer"));
            std::ostream tout(&tbuf);
            tout < fast_name_dataset;
            tout.flush();
         } else {
            disk_write("table", table);
         }
         sim_restart_world();
      }
      std::string table, data;
      disk_read("table", table);
      disk_read("tensors", data);
      // names the reader used before it loads the table
      int earlier = sim_choose(8, "names before loading");
      for (int i = 0; i < earlier; i++) {
         (void)FastName(i % 2 ? pool[i % pool.size()] : "reader" + std::to_string(i));
      }
      auto state = [] {
         Print p;
         p.u64(fast_name_dataset.names_total_index);
         print_value(p, fast_name_dataset.id_to_name);
         return p.s;
      };
      if (sim_coin(1, 3, "damaged table first")) {
         std::string before = state();
         size_t cut = sim_choose(uint32_t(table.size()), "table cut");
         bool thrown = false;
         if (sim_coin(1, 2, "through a stream")) {
            SimIn buf(table, choose_piece("piece"), cut);
            std::istream in(&buf);
            try {
               in > fast_name_dataset;
               thrown = !in;
            } catch (const std::exception&) {
               thrown = true;
            }
         } else {
            try {
               load_fast_name_dataset(table.substr(0, cut));
            } catch (const std::exception&) {
               thrown = true;
            }
         }
         sim_fault("truncation");
         if (!thrown) {
            sim_fail("silent-truncation", "a name table cut to %zu of %zu bytes was loaded without an error", cut, table.size());
         }
         if (state() != before) {
            sim_fail("name-table", "a failed load changed the table of names");
         }
      }
      if (sim_coin(1, 2, "load through a stream")) {
         SimIn buf(table, choose_piece("table piece"));
         std::istream in(&buf);
         in > fast_name_dataset;
         if (!in) {
            sim_fail("name-table", "the table could not be read back");
         }
      } else {
         load_fast_name_dataset(table);
      }
      check_table("reader");
      SimIn buf(data, choose_piece("read piece"));
      std::istream in(&buf);
      // new names in between must not disturb the loaded ones
      int fresh = sim_choose(6, "fresh names");
      for (int i = 0; i < fresh; i++) {
         // also names this process had used before it loaded the table
         std::string text = (sim_coin(1, 2, "used before") ? "reader" : "fresh") + std::to_string(i);
         FastName n(text);
         if (name_string(n) != text) {
            sim_fail("name-table", "a name registered after loading reads back as \"%s\"", name_string(n).c_str());
         }
      }
      Rng values(seed + 1);
      for (uint64_t i = 0; i < tensors; i++) {
         NamedTensor got;
         in > got;
         if (!in) {
            sim_fail("name-table", "tensor %d could not be read", int(i));
         }
         NamedTensor want = named(values, pool);
         if (fingerprint(got) != fingerprint(want)) {
            sim_fail("name-table", "tensor %d read by another process has other edge names or data", int(i));
         }
      }
      check_table("reader at the end");
      sim_count("tables", 1);
      sim_nontrivial();
   }

   // the same between running processes: one table for the whole job
   void s05m() {
      const int me = sim_rank(), size = sim_size();
      uint64_t seed = shared_decision("names seed", 1u << 20);
      Rng r(seed);
      std::vector<std::string> pool;
      std::set<std::string> seen;
      uint64_t count = 2 + shared_decision("names count", 12);
      while (pool.size() < count) {
         auto s = some_name(r);
         if (seen.insert(s).second) {
            pool.push_back(s);
         }
      }
      for (size_t i = 0; i < pool.size(); i++) {
         (void)FastName(pool[(i * (1 + 2 * me) + me) % pool.size()]);
      }
      if (me == 0) {
         for (auto& n : pool) {
            (void)FastName(n);
         }
      }
      std::string table = mpi.broadcast(me == 0 ? dump_fast_name_dataset() : std::string(), 0);
      load_fast_name_dataset(table);
      for (int round = 0; round < 3; round++) {
         int from = int((seed + round) % size), to = int((seed / 7 + round * 3) % size);
         Rng v(seed + 100 + round);
         NamedTensor want = named(v, pool);
         NamedTensor got = mpi.send_receive(me == from ? want : NamedTensor(), from, to);
         if (me == to && fingerprint(got) != fingerprint(want)) {
            sim_fail("name-table", "a tensor sent to rank %d arrived with other edge names", me);
         }
      }
      sim_count("tables", 1);
      sim_nontrivial();
   }
} // namespace

extern "C" __attribute__((visibility("default"))) void sim_main(const char* scenario) {
   register_names();
   io_plain(kinds);
   io_No(kinds);
   io_Z2(kinds);
   io_U1(kinds);
   io_Fermi(kinds);
   io_FermiZ2(kinds);
   io_FermiU1(kinds);
   std::string s = scenario;
   if (s == "s01") {
      s01();
   } else if (s == "s02") {
      s02();
   } else if (s == "s03") {
      s03();
   } else if (s == "s04") {
      s04();
   } else if (s == "s05") {
      s05();
   } else if (s == "s05m") {
      s05m();
   } else {
      sim_fail("simulator", "unknown scenario %s", scenario);
   }
}
