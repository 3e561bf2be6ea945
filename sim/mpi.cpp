// Simulated MPI: reliable, per-pair FIFO, arbitrary delay, buffered or synchronous standard sends.
#include "core.h"
#include "include/mpi.h"

#include <algorithm>
#include <memory>

using namespace sim;

namespace sim {
   extern bool inside;
   uint64_t current_step();

   struct Packet {
      int source, destination, tag, comm;
      size_t bytes = 0;
      std::string data;         // valid when copied
      const void* buffer;       // sender's buffer, read when matched unless copied
      bool copied = false;
      bool synchronous = false; // sender waits for the match
      bool matched = false;
      uint64_t id;
   };
   using PacketPtr = std::shared_ptr<Packet>;

   struct Pending { // a request
      bool receive = false;
      bool done = false;
      PacketPtr packet;
      void* buffer = nullptr;
      size_t capacity = 0;
      int source = 0, tag = 0, comm = 0;
      MPI_Status status{};
   };
   using PendingPtr = std::shared_ptr<Pending>;

   struct Collective {
      const char* kind = nullptr;
      int root = -1;
      int arrived = 0;
      int left = 0;
      bool early = false;
      std::map<int, std::string> contribution;
      size_t bytes = 0;
   };

   struct Rank {
      bool initialized = false;
      bool finalized = false;
      int inits = 0, finalizes = 0;
      std::vector<PacketPtr> unexpected;
      std::vector<PendingPtr> posted;
      std::map<int, PendingPtr> requests;
      std::map<int, PacketPtr> messages;
      int next_request = 1;
      int next_message = 1;
      std::map<int, uint64_t> collective_number;
      std::string attach_buffer;
   };

   struct World {
      std::vector<Rank> ranks;
      std::map<std::pair<int, int>, std::deque<PacketPtr>> channels; // in flight, FIFO per pair
      std::map<std::pair<int, int>, uint64_t> stalled;
      std::map<std::pair<int, uint64_t>, Collective> collectives;
      uint64_t next_packet = 1;
      int next_comm = 3;
      std::map<std::pair<int, int>, int> dup_comm; // (parent, n-th dup) -> id
   };
   World* W = nullptr;

   void mpi_reset(int n) {
      Inside guard;
      W = new World;
      W->ranks.resize(n);
   }

   static std::vector<std::pair<int, int>> heads() {
      std::vector<std::pair<int, int>> result;
      for (auto& [key, queue] : W->channels) {
         if (!queue.empty()) {
            result.push_back(key);
         }
      }
      return result;
   }
   int mpi_deliverable() {
      return int(heads().size());
   }
   int mpi_channel_stalled(int index, uint64_t step) {
      auto key = heads()[index];
      auto found = W->stalled.find(key);
      return found != W->stalled.end() && found->second > step;
   }
   static void fatal(const char* what) {
      sim_fail("mpi-error", "rank %d: %s", current, what);
   }
   static bool matches(const Packet& p, int source, int tag, int comm) {
      return p.comm == comm && (source == MPI_ANY_SOURCE || source == p.source) && (tag == MPI_ANY_TAG || tag == p.tag);
   }
   static void complete(Pending& r, const PacketPtr& p) {
      if (p->bytes > r.capacity) {
         sim_fail("mpi-error", "message of %zu bytes from %d to %d truncated to a buffer of %zu bytes", p->bytes, p->source, p->destination, r.capacity);
      }
      if (p->bytes) {
         memcpy(r.buffer, p->copied ? p->data.data() : p->buffer, p->bytes);
      }
      p->matched = true;
      r.done = true;
      r.status.MPI_SOURCE = p->source;
      r.status.MPI_TAG = p->tag;
      r.status.MPI_ERROR = MPI_SUCCESS;
      r.status.sim_bytes = int(p->bytes);
      note("recv %d<-%d tag %d bytes %zu #%llu", p->destination, p->source, p->tag, p->bytes, (unsigned long long)p->id);
   }
   void mpi_deliver(int index) {
      Inside guard;
      auto key = heads()[index];
      auto& queue = W->channels[key];
      auto p = queue.front();
      queue.pop_front();
      auto& rank = W->ranks[p->destination];
      note("deliver %d->%d #%llu", p->source, p->destination, (unsigned long long)p->id);
      for (auto iter = rank.posted.begin(); iter != rank.posted.end(); ++iter) {
         if (matches(*p, (*iter)->source, (*iter)->tag, (*iter)->comm)) {
            auto r = *iter;
            rank.posted.erase(iter);
            complete(*r, p);
            return;
         }
      }
      rank.unexpected.push_back(p);
   }
   std::string mpi_describe() {
      std::string s;
      for (auto& [key, queue] : W->channels) {
         for (auto& p : queue) {
            s += "in flight " + std::to_string(p->source) + "->" + std::to_string(p->destination) + " (" + std::to_string(p->bytes) + " bytes); ";
         }
      }
      for (auto& r : W->ranks) {
         for (auto& p : r.unexpected) {
            s += "not received " + std::to_string(p->source) + "->" + std::to_string(p->destination) + " (" + std::to_string(p->bytes) + " bytes); ";
         }
      }
      return s;
   }

   static Rank& me() {
      return W->ranks[current];
   }
   static void alive(const char* what) {
      if (!me().initialized) {
         sim_fail("mpi-error", "rank %d: %s before MPI_Init", current, what);
      }
      if (me().finalized) {
         sim_fail("mpi-error", "rank %d: %s after MPI_Finalize", current, what);
      }
      sim_yield(what);
   }
   static size_t type_size(MPI_Datatype t) {
      size_t s = t & 0xff;
      if (s == 0) {
         fatal("invalid datatype");
      }
      return s;
   }
   static int peer_check(int peer, int comm, bool any) {
      int size = comm == MPI_COMM_SELF ? 1 : world;
      if ((any && peer == MPI_ANY_SOURCE) || peer == MPI_PROC_NULL) {
         return peer;
      }
      if (peer < 0 || peer >= size) {
         sim_fail("mpi-error", "rank %d: invalid peer rank %d", current, peer);
      }
      return comm == MPI_COMM_SELF ? current : peer;
   }
   static PendingPtr start_send(const void* buffer, int count, MPI_Datatype type, int destination, int tag, int comm, int force /*0 std 1 sync 2 buffered*/) {
      auto r = std::make_shared<Pending>();
      if (destination == MPI_PROC_NULL) {
         r->done = true;
         return r;
      }
      destination = peer_check(destination, comm, false);
      if (count < 0) {
         fatal("negative count");
      }
      if (tag < 0) {
         fatal("invalid tag");
      }
      auto p = std::make_shared<Packet>();
      p->source = current;
      p->destination = destination;
      p->tag = tag;
      p->comm = comm;
      p->bytes = size_t(count) * type_size(type);
      p->buffer = buffer;
      p->id = W->next_packet++;
      bool synchronous = force == 1;
      if (force == 0) {
         switch (swarm.send_mode) {
            case 0: synchronous = false; break;
            case 1: synchronous = true; break;
            case 2: synchronous = p->bytes > swarm.send_limit; break;
            default: synchronous = sim_coin(1, 2, "synchronous send"); break;
         }
      }
      p->synchronous = synchronous;
      if (!synchronous) {
         p->data.assign(static_cast<const char*>(buffer), p->bytes);
         p->copied = true;
      } else {
         sim_fault("synchronous_send");
      }
      auto& channel = W->channels[{current, destination}];
      if (swarm.stall_links && sim_coin(1, 8, "stall link")) {
         W->stalled[{current, destination}] = current_step() + 5 + sim_choose(120, "link stall length");
         sim_fault("link_delayed");
      }
      channel.push_back(p);
      note("send %d->%d tag %d bytes %zu %s #%llu", current, destination, tag, p->bytes, synchronous ? "sync" : "eager", (unsigned long long)p->id);
      sim_count("mpi.messages", 1);
      r->packet = p;
      r->done = !synchronous;
      return r;
   }
   static PendingPtr start_receive(void* buffer, int count, MPI_Datatype type, int source, int tag, int comm) {
      auto r = std::make_shared<Pending>();
      r->receive = true;
      if (source == MPI_PROC_NULL) {
         r->done = true;
         r->status.MPI_SOURCE = MPI_PROC_NULL;
         r->status.MPI_TAG = MPI_ANY_TAG;
         return r;
      }
      source = peer_check(source, comm, true);
      if (count < 0) {
         fatal("negative count");
      }
      r->buffer = buffer;
      r->capacity = size_t(count) * type_size(type);
      r->source = source;
      r->tag = tag;
      r->comm = comm;
      auto& u = me().unexpected;
      for (auto iter = u.begin(); iter != u.end(); ++iter) {
         if (matches(**iter, source, tag, comm)) {
            auto p = *iter;
            u.erase(iter);
            complete(*r, p);
            return r;
         }
      }
      me().posted.push_back(r);
      return r;
   }
   static bool finished(const PendingPtr& r) {
      return r->done || (r->packet && r->packet->matched);
   }
   static void wait(const PendingPtr& r, MPI_Status* status, const char* what) {
      if (!finished(r)) {
         block(what, [r] { return finished(r); });
      }
      if (status) {
         *status = r->status;
      }
   }
   static int add_request(const PendingPtr& r) {
      int id = me().next_request++;
      me().requests[id] = r;
      return id;
   }

   // ---- collectives
   static Collective& join(const char* kind, int root, size_t bytes, MPI_Comm comm, uint64_t& number) {
      number = me().collective_number[comm]++;
      auto& c = W->collectives[{comm, number}];
      if (c.kind == nullptr) {
         c.kind = kind;
         c.root = root;
         c.bytes = bytes;
         c.early = swarm.collective_early;
      } else {
         if (strcmp(c.kind, kind) != 0 || c.root != root) {
            sim_fail("mpi-error", "collective mismatch: rank %d calls %s(root %d) where another rank called %s(root %d)", current, kind, root, c.kind, c.root);
         }
         if (c.bytes != bytes) {
            sim_fail("mpi-error", "collective %s: rank %d passes %zu bytes, another rank %zu", kind, current, bytes, c.bytes);
         }
      }
      c.arrived++;
      note("%s enter", kind);
      return c;
   }
   template<typename T>
   static void combine_typed(char* a, const char* b, size_t n, MPI_Op op) {
      for (size_t i = 0; i < n; i++) {
         T x, y;
         memcpy(&x, a + i * sizeof(T), sizeof(T));
         memcpy(&y, b + i * sizeof(T), sizeof(T));
         switch (op) {
            case MPI_SUM: x = T(x + y); break;
            case MPI_PROD: x = T(x * y); break;
            case MPI_MAX: x = x < y ? y : x; break;
            case MPI_MIN: x = y < x ? y : x; break;
            case MPI_LAND: x = T(x && y); break;
            case MPI_LOR: x = T(x || y); break;
            default: fatal("unsupported reduction operation");
         }
         memcpy(a + i * sizeof(T), &x, sizeof(T));
      }
   }
   static void combine(std::string& a, const std::string& b, MPI_Datatype t, MPI_Op op) {
      size_t n = a.size() / type_size(t);
      char* p = &a[0];
      switch (t) {
         case MPI_FLOAT: combine_typed<float>(p, b.data(), n, op); break;
         case MPI_C_FLOAT_COMPLEX: combine_typed<float>(p, b.data(), 2 * n, op); break;
         case MPI_DOUBLE: combine_typed<double>(p, b.data(), n, op); break;
         case MPI_C_DOUBLE_COMPLEX: combine_typed<double>(p, b.data(), 2 * n, op); break;
         case MPI_CHAR:
         case MPI_SIGNED_CHAR:
         case MPI_INT8_T: combine_typed<signed char>(p, b.data(), n, op); break;
         case MPI_BYTE:
         case MPI_C_BOOL:
         case MPI_UNSIGNED_CHAR:
         case MPI_UINT8_T: combine_typed<unsigned char>(p, b.data(), n, op); break;
         case MPI_SHORT:
         case MPI_INT16_T: combine_typed<short>(p, b.data(), n, op); break;
         case MPI_UNSIGNED_SHORT:
         case MPI_UINT16_T: combine_typed<unsigned short>(p, b.data(), n, op); break;
         case MPI_INT:
         case MPI_INT32_T: combine_typed<int>(p, b.data(), n, op); break;
         case MPI_UNSIGNED:
         case MPI_UINT32_T: combine_typed<unsigned>(p, b.data(), n, op); break;
         case MPI_LONG:
         case MPI_LONG_LONG:
         case MPI_INT64_T: combine_typed<long>(p, b.data(), n, op); break;
         default: combine_typed<unsigned long>(p, b.data(), n, op); break;
      }
   }
} // namespace sim

extern "C" {
int sim_mpi_inits() {
   return W->ranks[current].inits;
}
int sim_mpi_finalizes() {
   return W->ranks[current].finalizes;
}
int sim_mpi_is_finalized() {
   return W->ranks[current].finalized;
}
// messages sent but not received by anybody
int sim_mpi_residual() {
   int n = 0;
   for (auto& [key, queue] : W->channels) {
      n += int(queue.size());
   }
   for (auto& r : W->ranks) {
      n += int(r.unexpected.size());
   }
   return n;
}

int MPI_Init(int*, char***) {
   Inside guard;
   if (me().initialized) {
      fatal("MPI_Init called twice");
   }
   me().initialized = true;
   me().inits++;
   return MPI_SUCCESS;
}
int MPI_Init_thread(int*, char***, int, int* provided) {
   if (provided) {
      *provided = MPI_THREAD_SINGLE;
   }
   return MPI_Init(nullptr, nullptr);
}
int MPI_Initialized(int* flag) {
   *flag = me().initialized;
   return MPI_SUCCESS;
}
int MPI_Finalized(int* flag) {
   *flag = me().finalized;
   return MPI_SUCCESS;
}
int MPI_Finalize() {
   Inside guard;
   if (!me().initialized || me().finalized) {
      fatal("MPI_Finalize while MPI is not active");
   }
   me().finalized = true;
   me().finalizes++;
   note("finalize");
   return MPI_SUCCESS;
}
int MPI_Abort(MPI_Comm, int code) {
   sim_fail("mpi-error", "rank %d: MPI_Abort(%d)", current, code);
}
int MPI_Comm_size(MPI_Comm comm, int* size) {
   Inside guard;
   if (!me().initialized || me().finalized) {
      fatal("MPI_Comm_size while MPI is not active");
   }
   *size = comm == MPI_COMM_SELF ? 1 : world;
   return MPI_SUCCESS;
}
int MPI_Comm_rank(MPI_Comm comm, int* rank) {
   Inside guard;
   if (!me().initialized || me().finalized) {
      fatal("MPI_Comm_rank while MPI is not active");
   }
   *rank = comm == MPI_COMM_SELF ? 0 : current;
   return MPI_SUCCESS;
}
int MPI_Comm_dup(MPI_Comm comm, MPI_Comm* result) {
   Inside guard;
   alive("MPI_Comm_dup");
   uint64_t number;
   join("comm_dup", 0, 0, comm, number);
   auto key = std::make_pair(comm, int(number));
   if (!W->dup_comm.count(key)) {
      W->dup_comm[key] = W->next_comm++;
   }
   *result = W->dup_comm[key];
   return MPI_SUCCESS;
}
int MPI_Comm_free(MPI_Comm* comm) {
   *comm = MPI_COMM_NULL;
   return MPI_SUCCESS;
}
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler) {
   return MPI_SUCCESS;
}
int MPI_Type_size(MPI_Datatype t, int* size) {
   *size = int(type_size(t));
   return MPI_SUCCESS;
}
int MPI_Get_processor_name(char* name, int* length) {
   *length = snprintf(name, MPI_MAX_PROCESSOR_NAME, "sim%d", current);
   return MPI_SUCCESS;
}
int MPI_Send(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) {
   Inside guard;
   alive("MPI_Send");
   wait(start_send(b, n, t, d, tag, c, 0), nullptr, "MPI_Send");
   return MPI_SUCCESS;
}
int MPI_Ssend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) {
   Inside guard;
   alive("MPI_Ssend");
   wait(start_send(b, n, t, d, tag, c, 1), nullptr, "MPI_Ssend");
   return MPI_SUCCESS;
}
int MPI_Bsend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) {
   Inside guard;
   alive("MPI_Bsend");
   start_send(b, n, t, d, tag, c, 2);
   return MPI_SUCCESS;
}
int MPI_Rsend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) {
   return MPI_Send(b, n, t, d, tag, c);
}
int MPI_Buffer_attach(void*, int) {
   return MPI_SUCCESS;
}
int MPI_Buffer_detach(void*, int*) {
   return MPI_SUCCESS;
}
int MPI_Recv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status* status) {
   Inside guard;
   alive("MPI_Recv");
   wait(start_receive(b, n, t, s, tag, c), status, "MPI_Recv");
   return MPI_SUCCESS;
}
int MPI_Isend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r) {
   Inside guard;
   alive("MPI_Isend");
   *r = add_request(start_send(b, n, t, d, tag, c, 0));
   return MPI_SUCCESS;
}
int MPI_Issend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r) {
   Inside guard;
   alive("MPI_Issend");
   *r = add_request(start_send(b, n, t, d, tag, c, 1));
   return MPI_SUCCESS;
}
int MPI_Ibsend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r) {
   Inside guard;
   alive("MPI_Ibsend");
   *r = add_request(start_send(b, n, t, d, tag, c, 2));
   return MPI_SUCCESS;
}
int MPI_Irecv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request* r) {
   Inside guard;
   alive("MPI_Irecv");
   *r = add_request(start_receive(b, n, t, s, tag, c));
   return MPI_SUCCESS;
}
int MPI_Wait(MPI_Request* r, MPI_Status* status) {
   Inside guard;
   alive("MPI_Wait");
   if (*r == MPI_REQUEST_NULL) {
      return MPI_SUCCESS;
   }
   auto found = me().requests.find(*r);
   if (found == me().requests.end()) {
      fatal("invalid request");
   }
   auto p = found->second;
   wait(p, status, "MPI_Wait");
   me().requests.erase(*r);
   *r = MPI_REQUEST_NULL;
   return MPI_SUCCESS;
}
int MPI_Waitall(int n, MPI_Request* r, MPI_Status* status) {
   for (int i = 0; i < n; i++) {
      MPI_Wait(r + i, status ? status + i : nullptr);
   }
   return MPI_SUCCESS;
}
int MPI_Waitany(int n, MPI_Request* r, int* index, MPI_Status* status) {
   Inside guard;
   alive("MPI_Waitany");
   std::vector<std::pair<int, PendingPtr>> list;
   for (int i = 0; i < n; i++) {
      if (r[i] != MPI_REQUEST_NULL) {
         list.emplace_back(i, me().requests.at(r[i]));
      }
   }
   if (list.empty()) {
      *index = MPI_UNDEFINED;
      return MPI_SUCCESS;
   }
   auto any = [&list] {
      for (auto& [i, p] : list) {
         if (finished(p)) {
            return true;
         }
      }
      return false;
   };
   if (!any()) {
      block("MPI_Waitany", any);
   }
   for (auto& [i, p] : list) {
      if (finished(p)) {
         *index = i;
         if (status) {
            *status = p->status;
         }
         me().requests.erase(r[i]);
         r[i] = MPI_REQUEST_NULL;
         return MPI_SUCCESS;
      }
   }
   return MPI_SUCCESS;
}
int MPI_Test(MPI_Request* r, int* flag, MPI_Status* status) {
   Inside guard;
   alive("MPI_Test");
   if (*r == MPI_REQUEST_NULL) {
      *flag = 1;
      return MPI_SUCCESS;
   }
   auto p = me().requests.at(*r);
   *flag = finished(p);
   if (*flag) {
      if (status) {
         *status = p->status;
      }
      me().requests.erase(*r);
      *r = MPI_REQUEST_NULL;
   }
   return MPI_SUCCESS;
}
int MPI_Testall(int n, MPI_Request* r, int* flag, MPI_Status* status) {
   Inside guard;
   alive("MPI_Testall");
   *flag = 1;
   for (int i = 0; i < n; i++) {
      if (r[i] != MPI_REQUEST_NULL && !finished(me().requests.at(r[i]))) {
         *flag = 0;
      }
   }
   if (*flag) {
      MPI_Waitall(n, r, status);
   }
   return MPI_SUCCESS;
}
int MPI_Request_free(MPI_Request* r) {
   Inside guard;
   me().requests.erase(*r);
   *r = MPI_REQUEST_NULL;
   return MPI_SUCCESS;
}
static PacketPtr find_unexpected(int s, int tag, MPI_Comm c) {
   for (auto& p : me().unexpected) {
      if (matches(*p, s, tag, c)) {
         return p;
      }
   }
   return nullptr;
}
static void fill_status(MPI_Status* status, const Packet& p) {
   if (status) {
      status->MPI_SOURCE = p.source;
      status->MPI_TAG = p.tag;
      status->MPI_ERROR = MPI_SUCCESS;
      status->sim_bytes = int(p.bytes);
   }
}
int MPI_Probe(int s, int tag, MPI_Comm c, MPI_Status* status) {
   Inside guard;
   alive("MPI_Probe");
   s = peer_check(s, c, true);
   int self = current;
   auto ready = [self, s, tag, c] {
      for (auto& p : W->ranks[self].unexpected) {
         if (matches(*p, s, tag, c)) {
            return true;
         }
      }
      return false;
   };
   if (!ready()) {
      block("MPI_Probe", ready);
   }
   fill_status(status, *find_unexpected(s, tag, c));
   return MPI_SUCCESS;
}
int MPI_Iprobe(int s, int tag, MPI_Comm c, int* flag, MPI_Status* status) {
   Inside guard;
   alive("MPI_Iprobe");
   s = peer_check(s, c, true);
   auto p = find_unexpected(s, tag, c);
   *flag = bool(p);
   if (p) {
      fill_status(status, *p);
   }
   return MPI_SUCCESS;
}
static int take_message(const PacketPtr& p, MPI_Message* m) {
   auto& u = me().unexpected;
   u.erase(std::find(u.begin(), u.end(), p));
   *m = me().next_message++;
   me().messages[*m] = p;
   return MPI_SUCCESS;
}
int MPI_Mprobe(int s, int tag, MPI_Comm c, MPI_Message* m, MPI_Status* status) {
   MPI_Probe(s, tag, c, status);
   Inside guard;
   return take_message(find_unexpected(s, tag, c), m);
}
int MPI_Improbe(int s, int tag, MPI_Comm c, int* flag, MPI_Message* m, MPI_Status* status) {
   MPI_Iprobe(s, tag, c, flag, status);
   Inside guard;
   return *flag ? take_message(find_unexpected(s, tag, c), m) : MPI_SUCCESS;
}
int MPI_Mrecv(void* b, int n, MPI_Datatype t, MPI_Message* m, MPI_Status* status) {
   Inside guard;
   alive("MPI_Mrecv");
   auto p = me().messages.at(*m);
   me().messages.erase(*m);
   *m = MPI_MESSAGE_NULL;
   Pending r;
   r.buffer = b;
   r.capacity = size_t(n) * type_size(t);
   complete(r, p);
   if (status) {
      *status = r.status;
   }
   return MPI_SUCCESS;
}
int MPI_Get_count(const MPI_Status* status, MPI_Datatype t, int* count) {
   int size = int(type_size(t));
   *count = status->sim_bytes % size ? MPI_UNDEFINED : status->sim_bytes / size;
   return MPI_SUCCESS;
}
int MPI_Get_elements(const MPI_Status* status, MPI_Datatype t, int* count) {
   return MPI_Get_count(status, t, count);
}
int MPI_Sendrecv(const void* sb, int sn, MPI_Datatype st, int d, int stag, void* rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm c, MPI_Status* status) {
   Inside guard;
   alive("MPI_Sendrecv");
   auto r = start_receive(rb, rn, rt, s, rtag, c);
   auto p = start_send(sb, sn, st, d, stag, c, 0);
   wait(p, nullptr, "MPI_Sendrecv");
   wait(r, status, "MPI_Sendrecv");
   return MPI_SUCCESS;
}
int MPI_Barrier(MPI_Comm comm) {
   Inside guard;
   alive("MPI_Barrier");
   if (comm == MPI_COMM_SELF) {
      return MPI_SUCCESS;
   }
   uint64_t number;
   auto& c = join("barrier", 0, 0, comm, number);
   if (c.arrived < world) {
      block("MPI_Barrier", [&c] { return c.arrived == world; });
   }
   note("barrier leave");
   return MPI_SUCCESS;
}
int MPI_Bcast(void* b, int n, MPI_Datatype t, int root, MPI_Comm comm) {
   Inside guard;
   alive("MPI_Bcast");
   peer_check(root, comm, false);
   if (comm == MPI_COMM_SELF) {
      return MPI_SUCCESS;
   }
   size_t bytes = size_t(n) * type_size(t);
   uint64_t number;
   auto& c = join("bcast", root, bytes, comm, number);
   if (current == root) {
      c.contribution[root].assign(static_cast<const char*>(b), bytes);
      if (!c.early && c.arrived < world) {
         block("MPI_Bcast", [&c] { return c.arrived == world; });
      }
   } else {
      if (!c.contribution.count(root)) {
         block("MPI_Bcast", [&c, root] { return c.contribution.count(root) != 0; });
      }
      memcpy(b, c.contribution[root].data(), bytes);
      if (!c.early && c.arrived < world) {
         block("MPI_Bcast", [&c] { return c.arrived == world; });
      }
   }
   note("bcast leave");
   return MPI_SUCCESS;
}
static int gather_like(const char* kind, const void* sb, size_t bytes, int root, MPI_Comm comm, Collective** result) {
   uint64_t number;
   auto& c = join(kind, root, bytes, comm, number);
   c.contribution[current].assign(static_cast<const char*>(sb), bytes);
   bool needs_all = root == -1 || current == root || !c.early;
   if (needs_all && c.arrived < world) {
      block(kind, [&c] { return c.arrived == world; });
   }
   *result = &c;
   return MPI_SUCCESS;
}
static void reduce_into(Collective& c, void* rb, MPI_Datatype t, MPI_Op op) {
   std::string acc = c.contribution.begin()->second;
   for (auto iter = std::next(c.contribution.begin()); iter != c.contribution.end(); ++iter) {
      combine(acc, iter->second, t, op);
   }
   memcpy(rb, acc.data(), acc.size());
}
int MPI_Reduce(const void* sb, void* rb, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm comm) {
   Inside guard;
   alive("MPI_Reduce");
   Collective* c;
   gather_like("MPI_Reduce", sb == MPI_IN_PLACE ? rb : sb, size_t(n) * type_size(t), root, comm, &c);
   if (current == root) {
      reduce_into(*c, rb, t, op);
   }
   return MPI_SUCCESS;
}
int MPI_Allreduce(const void* sb, void* rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm comm) {
   Inside guard;
   alive("MPI_Allreduce");
   Collective* c;
   gather_like("MPI_Allreduce", sb == MPI_IN_PLACE ? rb : sb, size_t(n) * type_size(t), -1, comm, &c);
   reduce_into(*c, rb, t, op);
   return MPI_SUCCESS;
}
int MPI_Gather(const void* sb, int sn, MPI_Datatype st, void* rb, int, MPI_Datatype, int root, MPI_Comm comm) {
   Inside guard;
   alive("MPI_Gather");
   Collective* c;
   size_t bytes = size_t(sn) * type_size(st);
   gather_like("MPI_Gather", sb == MPI_IN_PLACE ? static_cast<char*>(rb) + bytes * current : sb, bytes, root, comm, &c);
   if (current == root) {
      for (auto& [r, s] : c->contribution) {
         memcpy(static_cast<char*>(rb) + bytes * r, s.data(), bytes);
      }
   }
   return MPI_SUCCESS;
}
int MPI_Gatherv(const void* sb, int sn, MPI_Datatype st, void* rb, const int* counts, const int* displacements, MPI_Datatype rt, int root, MPI_Comm comm) {
   Inside guard;
   alive("MPI_Gatherv");
   uint64_t number;
   auto& c = join("MPI_Gatherv", root, 0, comm, number);
   size_t size = type_size(rt);
   c.contribution[current].assign(
         sb == MPI_IN_PLACE ? static_cast<char*>(rb) + size * displacements[current] : static_cast<const char*>(sb),
         sb == MPI_IN_PLACE ? size * counts[current] : size_t(sn) * type_size(st));
   if (current == root) {
      if (c.arrived < world) {
         block("MPI_Gatherv", [&c] { return c.arrived == world; });
      }
      for (auto& [r, s] : c.contribution) {
         memcpy(static_cast<char*>(rb) + size * displacements[r], s.data(), s.size());
      }
   }
   return MPI_SUCCESS;
}
int MPI_Scatter(const void* sb, int, MPI_Datatype, void* rb, int rn, MPI_Datatype rt, int root, MPI_Comm comm) {
   Inside guard;
   alive("MPI_Scatter");
   size_t bytes = size_t(rn) * type_size(rt);
   uint64_t number;
   auto& c = join("MPI_Scatter", root, bytes, comm, number);
   if (current == root) {
      c.contribution[root].assign(static_cast<const char*>(sb), bytes * world);
   } else if (!c.contribution.count(root)) {
      block("MPI_Scatter", [&c, root] { return c.contribution.count(root) != 0; });
   }
   memcpy(rb, c.contribution[root].data() + bytes * current, bytes);
   return MPI_SUCCESS;
}
int MPI_Allgather(const void* sb, int sn, MPI_Datatype st, void* rb, int, MPI_Datatype, MPI_Comm comm) {
   Inside guard;
   alive("MPI_Allgather");
   Collective* c;
   size_t bytes = size_t(sn) * type_size(st);
   gather_like("MPI_Allgather", sb == MPI_IN_PLACE ? static_cast<char*>(rb) + bytes * current : sb, bytes, -1, comm, &c);
   for (auto& [r, s] : c->contribution) {
      memcpy(static_cast<char*>(rb) + bytes * r, s.data(), bytes);
   }
   return MPI_SUCCESS;
}
int MPI_Error_string(int code, char* s, int* length) {
   *length = snprintf(s, MPI_MAX_ERROR_STRING, "error %d", code);
   return MPI_SUCCESS;
}
double MPI_Wtime() {
   return double(sim_now()) * 1e-9;
}
} // extern "C"
