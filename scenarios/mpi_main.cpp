// Scenarios m01..m06: jobs of several processes over the simulated MPI.
#define TAT_NOTHING_BITS 7
#include "mpi_kind.hpp"

#include <memory>
using namespace h;

namespace {
   enum OpKind { op_send, op_send_receive, op_broadcast, op_reduce, op_barrier, op_invalid_broadcast, op_invalid_reduce, op_one, op_rank, op_handle, op_count };
   struct Op {
      uint32_t kind, a, b, type, seed, shape, variant, extra;
   };
   std::vector<Kind> kinds;

   struct Mix {
      uint32_t weight[op_count];
      uint32_t longest;
   };

   std::vector<Op> script(const Mix& mix) {
      std::string raw;
      if (!look("script", raw)) {
         std::vector<Op> ops;
         uint32_t total = 0;
         for (auto w : mix.weight) {
            total += w;
         }
         uint32_t n = 1 + sim_choose(mix.longest, "script length");
         // few message kinds per job, so that mixing up two messages of one kind is possible
         uint32_t palette[3];
         for (auto& p : palette) {
            p = sim_choose(uint32_t(kinds.size()), "message kind");
         }
         uint32_t size = sim_size();
         for (uint32_t i = 0; i < n; i++) {
            Op op{};
            uint32_t v = sim_choose(total, "operation");
            for (uint32_t k = 0; k < op_count; k++) {
               if (v < mix.weight[k]) {
                  op.kind = k;
                  break;
               }
               v -= mix.weight[k];
            }
            op.a = sim_choose(size, "rank a");
            op.b = sim_choose(size, "rank b");
            op.type = palette[sim_choose(3, "palette")];
            op.seed = sim_choose(1u << 20, "value");
            op.shape = sim_choose(1u << 20, "shape");
            op.variant = sim_choose(4, "variant");
            op.extra = sim_choose(64, "extra");
            ops.push_back(op);
         }
         raw.assign(reinterpret_cast<const char*>(ops.data()), ops.size() * sizeof(Op));
         post("script", raw);
         return ops;
      }
      std::vector<Op> ops(raw.size() / sizeof(Op));
      memcpy(ops.data(), raw.data(), raw.size());
      return ops;
   }

   uint64_t contribution(const Op& op, int rank) {
      return uint64_t(op.seed) * 64 + rank + 1;
   }

   void check(const char* cls, const Op& op, size_t index, const std::string& got, const std::string& want) {
      if (got != want) {
         sim_fail(cls, "operation %zu (%s, ranks a=%u b=%u of %d): value on rank %d differs from the one sent (got %zu bytes hash %016llx, expected %zu bytes hash %016llx)", index,
                  kinds[op.type].name, op.a, op.b, sim_size(), sim_rank(), got.size(), (unsigned long long)hash_of(got), want.size(), (unsigned long long)hash_of(want));
      }
   }
   std::string text_of(const Op& op, int rank) {
      Rng r(op.seed * 8ull + rank);
      std::string s = "<" + std::to_string(rank) + ":";
      int n = r.below(12);
      for (int i = 0; i < n; i++) {
         s += char('a' + r.below(26));
      }
      return s;
   }

   void run_script(const Mix& mix, bool with_handles) {
      register_names();
      auto ops = script(mix);
      const int me = sim_rank(), size = sim_size();
      if (mpi.rank != me || mpi.size != size) {
         sim_fail("identity", "handle says rank %d of %d, process is rank %d of %d", mpi.rank, mpi.size, me, size);
      }
      std::vector<std::unique_ptr<mpi_t>> handles;
      std::string expected_output[3][64]; // what this rank is to print
      for (size_t i = 0; i < ops.size(); i++) {
         const Op& op = ops[i];
         const Kind& k = kinds[op.type];
         const mpi_t* h = &mpi;
         if (with_handles && !handles.empty() && op.extra % 3 == 0) {
            h = handles[op.extra % handles.size()].get();
         }
         int a = op.a, b = op.b;
         switch (op.kind) {
            case op_send:
               if (a == b) {
                  break;
               }
               if (me == a) {
                  k.send(*h, op.seed, b, op.variant);
                  sim_count("messages", 1);
               } else if (me == b) {
                  check("delivery", op, i, k.receive(*h, a, op.variant), k.expect(op.seed));
               }
               break;
            case op_send_receive: {
               auto got = k.send_receive(*h, me == a, op.seed, a, b, op.variant);
               if (me == b) {
                  check("delivery", op, i, got, k.expect(op.seed));
               } else if (got != k.blank()) {
                  sim_fail("delivery", "operation %zu: send_receive returned a value on rank %d which is not the destination", i, me);
               }
               sim_count("send_receive", 1);
               break;
            }
            case op_broadcast: {
               auto got = k.broadcast(*h, me == a || op.extra % 2, me == a ? op.seed : op.seed + 1 + me, a, op.variant);
               check("broadcast", op, i, got, k.expect(op.seed));
               sim_count("broadcast", 1);
               break;
            }
            case op_reduce: {
               if (!k.reduce) {
                  break;
               }
               auto got = k.reduce(*h, op.shape, contribution(op, me), a, op.variant, false);
               if (me == a) {
                  std::vector<uint64_t> all;
                  for (int r = 0; r < size; r++) {
                     all.push_back(contribution(op, r));
                  }
                  check("reduce", op, i, got, k.expect_sum(op.shape, all));
               }
               sim_count("reduce", 1);
               if (op.extra % 2) {
                  // the same floating point reduction twice under two schedules: same bits
                  auto first = k.reduce(*h, op.shape, contribution(op, me), a, op.variant, true);
                  auto second = k.reduce(*h, op.shape, contribution(op, me), a, op.variant, true);
                  if (me == a && first != second) {
                     sim_fail("reduce-timing", "operation %zu (%s): repeating a reduction of the same values gave different bits on rank %d", i, k.name, me);
                  }
                  sim_count("reduce_repeated", 1);
               }
               break;
            }
            case op_barrier: {
               std::string key = "barrier " + std::to_string(i), entered;
               look(key, entered);
               entered.push_back(char(me));
               post(key, entered);
               h->barrier();
               look(key, entered);
               if (int(entered.size()) != size) {
                  sim_fail("barrier", "rank %d left barrier %zu when only %zu of %d processes had entered", me, i, entered.size(), size);
               }
               sim_count("barrier", 1);
               break;
            }
            case op_invalid_broadcast:
            case op_invalid_reduce: {
               if (size == 1) {
                  break;
               }
               int root = op.extra % 2 ? size + int(op.extra / 2) : -1 - int(op.extra / 2);
               bool thrown = false;
               try {
                  if (op.kind == op_invalid_broadcast) {
                     k.broadcast(*h, true, op.seed, root, 0);
                  } else if (k.reduce) {
                     k.reduce(*h, op.shape, op.seed, root, 0, false);
                  } else {
                     break;
                  }
               } catch (const std::runtime_error&) {
                  thrown = true;
               }
               if (!thrown) {
                  sim_fail("invalid-root", "operation %zu: root %d of %d accepted", i, root, size);
               }
               sim_count("invalid_root", 1);
               break;
            }
            case op_one:
            case op_rank: {
               int which = op.extra % 3;
               std::string text = text_of(op, me);
               mpi_t& m = const_cast<mpi_t&>(*h);
               // a statement need not be a line
               static const char* const endings[] = {">\n", ">\r", ">", ">#"};
               const std::string end = endings[op.seed / 3 % 4];
               if (op.kind == op_one) {
                  bool chained = op.variant % 2;
                  auto put = [&](auto&& stream) {
                     if (chained) {
                        std::move(stream) << text << "|" << int(op.seed) << end;
                     } else {
                        stream << text;
                        sim_yield("between parts");
                        stream << "|" << int(op.seed);
                        sim_yield("between parts");
                        stream << end;
                     }
                  };
                  which == 0 ? put(m.out_one(a)) : which == 1 ? put(m.log_one(a)) : put(m.err_one(a));
                  if (me == a) {
                     expected_output[which][0] += text + "|" + std::to_string(op.seed) + end;
                  }
               } else {
                  auto put = [&](auto&& stream) {
                     stream << text;
                     sim_yield("between parts");
                     stream << "|";
                     sim_yield("between parts");
                     std::move(stream) << int(op.seed) << end;
                  };
                  which == 0 ? put(m.out_rank()) : which == 1 ? put(m.log_rank()) : put(m.err_rank());
                  expected_output[which][0] += (size == 1 ? std::string() : "[rank " + std::to_string(me) + "] ") + text + "|" + std::to_string(op.seed) + end;
               }
               // a line is out as soon as the statement that wrote it has ended
               std::string all(sim_output_data(which), sim_output_size(which));
               std::string& mine = expected_output[which][0];
               if (!mine.empty()) {
                  // from the last '<' on: the text of the last statement
                  std::string last = mine.substr(mine.rfind('<'));
                  if (all.find(last) == std::string::npos) {
                     sim_fail("output-flush", "operation %zu: rank %d's line is not out after its statement ended", i, me);
                  }
               }
               sim_count("lines", 1);
               break;
            }
            case op_handle:
               if (op.b % 3 == 0) {
                  mpi_t temporary;
                  if (temporary.rank != me || temporary.size != size) {
                     sim_fail("identity", "a further handle says rank %d of %d, process is rank %d of %d", temporary.rank, temporary.size, me, size);
                  }
                  sim_count("handle_temporary", 1);
               } else if (op.b % 3 == 1 && !handles.empty() && op.seed % 2) {
                  // assigned, moved and swapped handles
                  auto& one = *handles[op.extra % handles.size()];
                  switch (op.seed / 2 % 5) {
                     case 0: one = mpi; break;
                     case 1: one = std::move(*handles[op.seed / 10 % handles.size()]); break;
                     case 2: std::swap(one, *handles[op.seed / 10 % handles.size()]); break;
                     case 3: {
                        mpi_t temporary;
                        temporary = mpi;
                        break;
                     }
                     default: {
                        mpi_t temporary(std::move(one));
                        one = temporary;
                     }
                  }
                  if (one.rank != me || one.size != size || mpi.rank != me || mpi.size != size) {
                     sim_fail("identity", "after an assignment a handle says rank %d of %d, process is rank %d of %d", one.rank, one.size, me, size);
                  }
                  sim_count("handle_assigned", 1);
               } else if (op.variant % 2 == 0 || handles.empty()) {
                  if (op.extra % 2) {
                     handles.push_back(std::make_unique<mpi_t>(*h));
                     sim_count("handle_copied", 1);
                  } else {
                     handles.push_back(std::make_unique<mpi_t>());
                     sim_count("handle_created", 1);
                  }
                  if (handles.back()->rank != me || handles.back()->size != size) {
                     sim_fail("identity", "a further handle says rank %d of %d, process is rank %d of %d", handles.back()->rank, handles.back()->size, me, size);
                  }
               } else {
                  handles.erase(handles.begin() + op.extra % handles.size());
                  sim_count("handle_destroyed", 1);
               }
               if (sim_mpi_inits() != 1) {
                  sim_fail("lifecycle", "MPI_Init called %d times", sim_mpi_inits());
               }
               if (sim_mpi_is_finalized()) {
                  sim_fail("lifecycle", "MPI was finalised while the program's main handle is alive (after operation %zu on rank %d)", i, me);
               }
               break;
            default: break;
         }
         sim_yield("between operations");
      }
      if (size > 1) {
         sim_nontrivial();
      }
      std::string mine;
      for (int w = 0; w < 3; w++) {
         post("expected " + std::to_string(w) + " " + std::to_string(me), expected_output[w][0]);
      }
      handles.clear();
      if (with_handles && sim_mpi_is_finalized()) {
         sim_fail("lifecycle", "MPI was finalised while the program's main handle is alive");
      }
      sim_sync();
      if (sim_mpi_residual() != 0) {
         sim_fail("residual", "%d messages were sent and never received", sim_mpi_residual());
      }
   }

   // the captured output is exactly an interleaving, line by line, of what each rank was to print
   void check_output() {
      const int size = sim_size();
      if (sim_rank() != 0) {
         return;
      }
      for (int w = 0; w < 3; w++) {
         std::vector<std::string> want(size);
         std::vector<size_t> at(size, 0);
         for (int r = 0; r < size; r++) {
            look("expected " + std::to_string(w) + " " + std::to_string(r), want[r]);
         }
         std::string got(sim_output_data(w), sim_output_size(w));
         size_t p = 0;
         while (p < got.size()) {
            size_t e = got.find('>', p);
            if (e != std::string::npos && e + 1 < got.size() && strchr("\n\r#", got[e + 1])) {
               e++;
            }
            std::string line = got.substr(p, e == std::string::npos ? std::string::npos : e - p + 1);
            // the writer's rank is inside the line
            size_t mark = line.find('<');
            int r = mark == std::string::npos ? -1 : atoi(line.c_str() + mark + 1);
            if (r < 0 || r >= size || want[r].compare(at[r], line.size(), line) != 0) {
               sim_fail("output", "unexpected or torn line in stream %d: %s", w, line.c_str());
            }
            at[r] += line.size();
            p += line.size();
         }
         for (int r = 0; r < size; r++) {
            if (at[r] != want[r].size()) {
               sim_fail("output", "stream %d lacks lines of rank %d: %s", w, r, want[r].c_str() + at[r]);
            }
         }
      }
   }
} // namespace

// normal process exit: the static destructors of this image
extern "C" void __cxa_finalize(void*);
extern "C" __attribute__((visibility("hidden"))) void* __dso_handle;
extern "C" __attribute__((visibility("default"))) void sim_image_exit() {
   __cxa_finalize(__dso_handle);
}

extern "C" __attribute__((visibility("default"))) void sim_main(const char* scenario) {
   kinds_plain(kinds);
   kinds_No(kinds);
   kinds_Z2(kinds);
   kinds_U1(kinds);
   kinds_Fermi(kinds);
   kinds_FermiZ2(kinds);
   kinds_FermiU1(kinds);
   std::string s = scenario;
   //                send sr  bc  red bar ib ir one rank handle
   if (s == "m01") {
      run_script({{60, 20, 0, 0, 3, 0, 0, 0, 0, 0}, 40}, false);
   } else if (s == "m02") {
      run_script({{10, 2, 60, 0, 3, 6, 0, 0, 0, 0}, 16}, false);
   } else if (s == "m03") {
      run_script({{8, 2, 4, 60, 2, 0, 6, 0, 0, 0}, 14}, false);
   } else if (s == "m04") {
      run_script({{30, 10, 15, 15, 20, 2, 2, 0, 0, 0}, 30}, false);
   } else if (s == "m05") {
      run_script({{6, 2, 4, 4, 6, 0, 0, 2, 2, 40}, 16}, true);
      kinds.clear();
      kinds.shrink_to_fit();
      sim_request_unload();
   } else if (s == "m06") {
      run_script({{4, 0, 2, 0, 4, 0, 0, 40, 40, 0}, 24}, false);
      check_output();
   } else {
      sim_fail("simulator", "unknown scenario %s", scenario);
   }
}
