From 9735942e8cf833e64740493723ac824e7ed058f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:52 +0000
Subject: [PATCH 01/45] fix: only the mpi_t handle that initialised MPI
 finalises it

Destroying any temporary or copied mpi_t finalised MPI for the whole process,
although the documentation says that several handles do not conflict.
---
 include/TAT/mpi.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/TAT/mpi.hpp b/include/TAT/mpi.hpp
index ad5a521..50816b7 100644
--- a/include/TAT/mpi.hpp
+++ b/include/TAT/mpi.hpp
@@ -110,6 +110,7 @@ namespace TAT {
       static constexpr bool enabled = false;
 #endif
 #ifdef TAT_USE_MPI
+      bool owner = false;
       static bool initialized() noexcept {
          int result;
          MPI_Initialized(&result);
@@ -123,12 +124,20 @@ namespace TAT {
       mpi_t() {
          if (!initialized()) {
             MPI_Init(nullptr, nullptr);
+            owner = true;
          }
          MPI_Comm_size(MPI_COMM_WORLD, &size);
          MPI_Comm_rank(MPI_COMM_WORLD, &rank);
       }
+      mpi_t(const mpi_t& other) : size(other.size), rank(other.rank) {}
+      mpi_t& operator=(const mpi_t& other) {
+         size = other.size;
+         rank = other.rank;
+         return *this;
+      }
       ~mpi_t() {
-         if (!finalized()) {
+         // 只有真正初始化了mpi的handler才负责finalize, 否则临时的handler析构后其他handler将无法使用
+         if (owner && !finalized()) {
             MPI_Finalize();
          }
       }
-- 
2.43.0


From 2c94223935f5bf03584c54f33007a3141946780f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:52 +0000
Subject: [PATCH 02/45] fix: send_receive from a rank to itself no longer
 blocks in MPI_Send

MPI_Send may wait for the matching receive, which this rank never reaches.
---
 include/TAT/mpi.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/TAT/mpi.hpp b/include/TAT/mpi.hpp
index 50816b7..73ceacb 100644
--- a/include/TAT/mpi.hpp
+++ b/include/TAT/mpi.hpp
@@ -176,6 +176,10 @@ namespace TAT {
 
       template<typename Type>
       Type send_receive(const Type& value, const int source, const int destination) const {
+         if (source == destination) {
+            // 阻塞地发送给自己可能会死锁
+            return rank == source ? value : Type();
+         }
          if (rank == source) {
             send(value, destination);
          }
-- 
2.43.0


From 91efb1903e72350406b1295e147c54913b028156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:05 +0000
Subject: [PATCH 03/45] fix: stop reading binary data when the stream ends
 early

The length fields were used uninitialised after a failed read, so a cut file or
message made the reader resize containers to arbitrary lengths or loop on them.
---
 include/TAT/io.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/TAT/io.hpp b/include/TAT/io.hpp
index 2d30575..e423e56 100644
--- a/include/TAT/io.hpp
+++ b/include/TAT/io.hpp
@@ -146,7 +146,9 @@ namespace TAT {
    }
    inline std::istream& operator>(std::istream& in, std::string& string) {
       Size count;
-      in > count;
+      if (!(in > count)) {
+         return in;
+      }
       string.resize(count);
       in.read(string.data(), sizeof(char) * count);
       return in;
@@ -190,10 +192,14 @@ namespace TAT {
    std::istream& operator>(std::istream& in, std::map<Key, Value>& map) {
       map.clear();
       Size size;
-      in > size;
+      if (!(in > size)) {
+         return in;
+      }
       for (Size i = 0; i < size; i++) {
          Key key;
-         in > key;
+         if (!(in > key)) {
+            break;
+         }
          in > map[std::move(key)];
       }
       return in;
@@ -269,12 +275,14 @@ namespace TAT {
    std::istream& operator>(std::istream& in, std::vector<T, A>& list) {
       list.clear();
       Size count;
-      in > count;
+      if (!(in > count)) {
+         return in;
+      }
       if constexpr (std::is_trivially_destructible_v<T>) {
          list.resize(count);
          in.read(reinterpret_cast<char*>(list.data()), sizeof(T) * count);
       } else {
-         for (Size i = 0; i < count; i++) {
+         for (Size i = 0; i < count && in; i++) {
             auto& item = list.emplace_back();
             if constexpr (is_name_v<T>) {
                NameTraits<T>::read(in, item);
-- 
2.43.0


From 4b65d8d44b50c392c93dcc609d856204ac07ea30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:05 +0000
Subject: [PATCH 04/45] fix: load reports incomplete data instead of returning
 a partial object

---
 include/TAT/io.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/TAT/io.hpp b/include/TAT/io.hpp
index e423e56..456218b 100644
--- a/include/TAT/io.hpp
+++ b/include/TAT/io.hpp
@@ -646,7 +646,9 @@ namespace TAT {
    template<typename ScalarType, typename Symmetry, typename Name>
    Tensor<ScalarType, Symmetry, Name>& Tensor<ScalarType, Symmetry, Name>::load(const std::string& input) & {
       std::istringstream in(input);
-      in > *this;
+      if (!(in > *this)) {
+         TAT_error("Incomplete data when loading tensor");
+      }
       return *this;
    }
 
@@ -664,7 +666,9 @@ namespace TAT {
    template<typename ScalarType, typename Symmetry, typename Name>
    Singular<ScalarType, Symmetry, Name>& Singular<ScalarType, Symmetry, Name>::load(const std::string& input) & {
       std::istringstream in(input);
-      in > *this;
+      if (!(in > *this)) {
+         TAT_error("Incomplete data when loading singular");
+      }
       return *this;
    }
 
-- 
2.43.0


From 499f4784994179cbba6453cc6ec1fc5afb3dbf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:05 +0000
Subject: [PATCH 05/45] fix: reading a list in text form ends when the stream
 fails

Without the closing bracket the loop appended elements forever.
---
 include/TAT/io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/TAT/io.hpp b/include/TAT/io.hpp
index 456218b..f85dc47 100644
--- a/include/TAT/io.hpp
+++ b/include/TAT/io.hpp
@@ -246,7 +246,7 @@ namespace TAT {
                in >> i;
             }
             char next = in.get();
-            if (next == ']') {
+            if (next == ']' || !in) {
                break;
             }
          }
-- 
2.43.0


From 003f905bfd37ddb06d20cbf287ff3f7220e79a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:05 +0000
Subject: [PATCH 06/45] fix: reading a long name in text form no longer
 overruns a stack buffer

---
 include/TAT/io.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/TAT/io.hpp b/include/TAT/io.hpp
index f85dc47..5797613 100644
--- a/include/TAT/io.hpp
+++ b/include/TAT/io.hpp
@@ -121,13 +121,10 @@ namespace TAT {
 
    // inline std::istream& operator>>(std::istream& in, std::string& name) {
    inline std::istream& scan_string_for_name(std::istream& in, std::string& name) {
-      char buffer[256]; // max name length = 256
-      Size length = 0;
+      name.clear();
       while (valid_name_character(in.peek())) {
-         buffer[length++] = in.get();
+         name.push_back(in.get());
       }
-      buffer[length] = '\x00';
-      name = (const char*)buffer;
       return in;
    }
 
-- 
2.43.0


From 4fab5f52630d2931d610273d8216372f3d70c1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:05 +0000
Subject: [PATCH 07/45] fix: symmetric tensors and singular values can be read
 back from their printed form

The colour code printed before each block's symmetries contains a bracket, which
the reader took for the beginning of the list.
---
 include/TAT/io.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/TAT/io.hpp b/include/TAT/io.hpp
index 5797613..3634dcb 100644
--- a/include/TAT/io.hpp
+++ b/include/TAT/io.hpp
@@ -445,6 +445,15 @@ namespace TAT {
       return out;
    }
 
+   /**
+    * 跳过输出时可能存在的色彩控制码, 它含有'['且在被着色的内容之前
+    */
+   inline void ignore_color(std::istream& in) {
+      if (in.peek() == '\x1B') {
+         ignore_util(in, 'm');
+      }
+   }
+
    template<typename ScalarType, typename Symmetry, typename Name>
    std::ostream& operator<<(std::ostream& out, const TensorShape<ScalarType, Symmetry, Name>& shape) {
       const auto& tensor = *shape.owner;
@@ -497,6 +506,7 @@ namespace TAT {
          if (in.peek() != '}') {
             do {
                std::vector<Symmetry> symmetries;
+               ignore_color(in);
                in >> symmetries;
                ignore_util(in, ':');
                in >> tensor.core->blocks[std::move(symmetries)];
@@ -541,6 +551,7 @@ namespace TAT {
          if (in.peek() != '}') {
             do {
                Symmetry symmetry;
+               ignore_color(in);
                in >> symmetry;
                ignore_util(in, ':');
                in >> value[symmetry];
-- 
2.43.0


From cfe5bffd67916c191436af8c7c0816d0bb98f0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:05 +0000
Subject: [PATCH 08/45] fix: a name table that cannot be read completely no
 longer replaces the current one

---
 include/TAT/io.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/TAT/io.hpp b/include/TAT/io.hpp
index 3634dcb..dd0b8f9 100644
--- a/include/TAT/io.hpp
+++ b/include/TAT/io.hpp
@@ -684,7 +684,11 @@ namespace TAT {
       return out < dataset.id_to_name;
    }
    inline std::istream& operator>(std::istream& in, fast_name_dataset_t& dataset) {
-      in > dataset.id_to_name;
+      std::vector<std::string> id_to_name;
+      if (!(in > id_to_name)) {
+         return in;
+      }
+      dataset.id_to_name = std::move(id_to_name);
       dataset.names_total_index = dataset.id_to_name.size();
       dataset.name_to_id.clear();
       for (auto i = 0; i < dataset.names_total_index; i++) {
@@ -694,7 +698,9 @@ namespace TAT {
    }
    inline void load_fast_name_dataset(const std::string& input) {
       std::istringstream in(input);
-      in > fast_name_dataset;
+      if (!(in > fast_name_dataset)) {
+         TAT_error("Incomplete data when loading fast name dataset");
+      }
    }
    inline std::string dump_fast_name_dataset() {
       std::ostringstream out;
-- 
2.43.0


From 7e6ff00d17e501b37523ef8887015cf876a829df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:16 +0000
Subject: [PATCH 09/45] fix: the arrow of an edge merged from edges without
 fermions no longer depends on uninitialised memory

---
 include/TAT/edge_operator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/TAT/edge_operator.hpp b/include/TAT/edge_operator.hpp
index f0b8117..4066d6c 100644
--- a/include/TAT/edge_operator.hpp
+++ b/include/TAT/edge_operator.hpp
@@ -399,7 +399,7 @@ namespace TAT {
                end_of_merge++;
             }
             // arrow begin
-            Arrow arrow;
+            Arrow arrow = false; // 如果所有边的箭头都无效, 则箭头方向任意, 但是需要是确定的
             bool arrow_fixed = false;
             if constexpr (is_fermi) {
                for (auto merge_group_position = start_of_merge; merge_group_position < end_of_merge; merge_group_position++) {
-- 
2.43.0


From c62a31a23e0843f76d209b95795112bbc1059c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:03 +0000
Subject: [PATCH 10/45] fix: identity of a rank zero tensor no longer runs out
 of its index arrays

---
 include/TAT/tensor_miscellaneous.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/TAT/tensor_miscellaneous.hpp b/include/TAT/tensor_miscellaneous.hpp
index 8d95a45..7c1009f 100644
--- a/include/TAT/tensor_miscellaneous.hpp
+++ b/include/TAT/tensor_miscellaneous.hpp
@@ -188,6 +188,9 @@ namespace TAT {
       auto current_index = VectorSize(rank, 0);
       while (true) {
          *pointer = 1;
+         if (rank == 0) {
+            return;
+         }
          Rank active_position = rank - 1;
 
          current_index[active_position]++;
-- 
2.43.0


From d3be9529bb41d5fbac1d055248dba470868559b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:30 +0000
Subject: [PATCH 11/45] fix: dump, show and send no longer pass on incomplete
 data when memory runs out

---
 include/TAT/io.hpp  | 5 +++++
 include/TAT/mpi.hpp | 1 +
 2 files changed, 6 insertions(+)

diff --git a/include/TAT/io.hpp b/include/TAT/io.hpp
index dd0b8f9..bdc08a6 100644
--- a/include/TAT/io.hpp
+++ b/include/TAT/io.hpp
@@ -566,6 +566,7 @@ namespace TAT {
    template<typename ScalarType, typename Symmetry, typename Name>
    std::string Tensor<ScalarType, Symmetry, Name>::show() const {
       std::ostringstream out;
+      out.exceptions(std::ios_base::badbit); // 不能在内存不足时返回不完整的结果
       out << *this;
       return out.str();
    }
@@ -573,6 +574,7 @@ namespace TAT {
    template<typename ScalarType, typename Symmetry, typename Name>
    std::string Singular<ScalarType, Symmetry, Name>::show() const {
       std::ostringstream out;
+      out.exceptions(std::ios_base::badbit); // 不能在内存不足时返回不完整的结果
       out << *this;
       return out.str();
    }
@@ -603,6 +605,7 @@ namespace TAT {
    template<typename ScalarType, typename Symmetry, typename Name>
    std::string Tensor<ScalarType, Symmetry, Name>::dump() const {
       std::ostringstream out;
+      out.exceptions(std::ios_base::badbit); // 不能在内存不足时返回不完整的结果
       out < *this;
       return out.str();
    }
@@ -620,6 +623,7 @@ namespace TAT {
    template<typename ScalarType, typename Symmetry, typename Name>
    std::string Singular<ScalarType, Symmetry, Name>::dump() const {
       std::ostringstream out;
+      out.exceptions(std::ios_base::badbit); // 不能在内存不足时返回不完整的结果
       out < *this;
       return out.str();
    }
@@ -704,6 +708,7 @@ namespace TAT {
    }
    inline std::string dump_fast_name_dataset() {
       std::ostringstream out;
+      out.exceptions(std::ios_base::badbit); // 不能在内存不足时返回不完整的结果
       out < fast_name_dataset;
       return out.str();
    }
diff --git a/include/TAT/mpi.hpp b/include/TAT/mpi.hpp
index 73ceacb..b4c8a13 100644
--- a/include/TAT/mpi.hpp
+++ b/include/TAT/mpi.hpp
@@ -152,6 +152,7 @@ namespace TAT {
       static void send(const Type& value, const int destination) {
          auto timer_guard = mpi_send_guard();
          std::ostringstream stream;
+         stream.exceptions(std::ios_base::badbit); // 不能在内存不足时发送不完整的数据
          stream < value;
          auto data = stream.str(); // TODO: 也许可以不需复制, 但这个在mpi框架内可能不是很方便
          // TODO 是不是可以立即返回?
-- 
2.43.0


From 740117438b6bacdcafe8cf1fe14b6a961c2031f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:30 +0000
Subject: [PATCH 12/45] fix: a name that cannot be registered for lack of
 memory is reported and leaves the table consistent

---
 include/TAT/name.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/TAT/name.hpp b/include/TAT/name.hpp
index 1ad1bfd..66429c5 100644
--- a/include/TAT/name.hpp
+++ b/include/TAT/name.hpp
@@ -85,11 +85,18 @@ namespace TAT {
       fast_name_dataset_t::FastNameId id = 0; // 默认为空串, 行为和std::string一致
       FastName() = default;
       FastName(const fast_name_dataset_t::FastNameId id) noexcept : id(id) {}
-      FastName(const char* name) noexcept : FastName(std::string(name)) {}
-      FastName(const std::string& name) noexcept {
+      FastName(const char* name) : FastName(std::string(name)) {}
+      FastName(const std::string& name) {
          if (const auto position = fast_name_dataset.name_to_id.find(name); position == fast_name_dataset.name_to_id.end()) {
-            id = fast_name_dataset.name_to_id[name] = fast_name_dataset.names_total_index++;
+            // 分配内存可能失败, 失败时两个映射表需要保持一致
             fast_name_dataset.id_to_name.push_back(name);
+            try {
+               id = fast_name_dataset.name_to_id[name] = fast_name_dataset.names_total_index;
+            } catch (...) {
+               fast_name_dataset.id_to_name.pop_back();
+               throw;
+            }
+            fast_name_dataset.names_total_index++;
          } else {
             id = position->second;
          }
-- 
2.43.0


From 5b0fd2a69965a388012dd0973bc551fa30434af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:31 +0000
Subject: [PATCH 13/45] fix: scratch memory does not lose a buffer when it
 cannot be recorded

---
 include/TAT/pmr_resource.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/TAT/pmr_resource.hpp b/include/TAT/pmr_resource.hpp
index 720134e..9cf1984 100644
--- a/include/TAT/pmr_resource.hpp
+++ b/include/TAT/pmr_resource.hpp
@@ -153,9 +153,16 @@ namespace TAT {
             if (remaining_storage(alignment, aligner) < bytes) {
                aligner = 0u;
                increase_next_size_to(bytes);
-               m_current_buffer = m_upstream->allocate(m_next_buffer_size, alignof(std::max_align_t));
+               // 先准备好记录, 再申请内存, 任何一步失败都不会丢失已申请的内存
+               m_buffer_list.push_front({nullptr, 0});
+               try {
+                  m_current_buffer = m_upstream->allocate(m_next_buffer_size, alignof(std::max_align_t));
+               } catch (...) {
+                  m_buffer_list.pop_front();
+                  throw;
+               }
                m_current_buffer_size = m_next_buffer_size;
-               m_buffer_list.push_front({m_current_buffer, m_current_buffer_size});
+               m_buffer_list.front() = {m_current_buffer, m_current_buffer_size};
                increase_next_size();
             }
             return allocate_from_current(aligner, bytes);
-- 
2.43.0


From 27b51a712fb641ee8335321d697c9735c8b02084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:16 +0000
Subject: [PATCH 14/45] fix: an empty request no longer makes scratch memory
 run out of its buffer

---
 include/TAT/pmr_resource.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/TAT/pmr_resource.hpp b/include/TAT/pmr_resource.hpp
index 9cf1984..5f20795 100644
--- a/include/TAT/pmr_resource.hpp
+++ b/include/TAT/pmr_resource.hpp
@@ -150,7 +150,7 @@ namespace TAT {
 
          void* do_allocate(std::size_t bytes, std::size_t alignment) override {
             std::size_t aligner = 0u;
-            if (remaining_storage(alignment, aligner) < bytes) {
+            if (remaining_storage(alignment, aligner) < bytes || m_current_buffer_size < aligner) {
                aligner = 0u;
                increase_next_size_to(bytes);
                // 先准备好记录, 再申请内存, 任何一步失败都不会丢失已申请的内存
-- 
2.43.0


From 72a9ba6a52d107220e38fd31330bf5358bec275b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:54 +0000
Subject: [PATCH 15/45] fix: setting a lazy value from the graph's own data or
 without memory keeps the graph usable

---
 include/lazy.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/lazy.hpp b/include/lazy.hpp
index 702c833..ee0ac81 100644
--- a/include/lazy.hpp
+++ b/include/lazy.hpp
@@ -137,12 +137,15 @@ namespace lazy {
       using lazy_base::unset;
 
       void set(Type&& v) {
+         // v可能就是当前节点或者下游节点中的数据, 所以先构造好新的数据再重置
+         auto new_value = std::make_shared<const Type>(std::move(v));
          unset();
-         value.reset(new Type(std::move(v)));
+         value = std::move(new_value);
       }
       void set(const Type& v) {
+         auto new_value = std::make_shared<const Type>(v);
          unset();
-         value.reset(new Type(v));
+         value = std::move(new_value);
       }
 
       root() = default;
@@ -164,12 +167,15 @@ namespace lazy {
       }
 
       void set(RealType&& v) {
+         // v可能就是当前节点或者下游节点中的数据, 所以先构造好新的数据再重置
+         auto new_value = std::make_shared<const RealType>(std::move(v));
          unset();
-         value.reset(new RealType(std::move(v)));
+         value = std::move(new_value);
       }
       void set(const RealType& v) {
+         auto new_value = std::make_shared<const RealType>(v);
          unset();
-         value.reset(new RealType(v));
+         value = std::move(new_value);
       }
 
    public:
-- 
2.43.0


From 6c1f63182c6f3b9881ab5aef7064da9564c50247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:54 +0000
Subject: [PATCH 16/45] fix: restoring a snapshot of a lazy graph drops what
 was computed by values created later

---
 include/lazy.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/lazy.hpp b/include/lazy.hpp
index ee0ac81..2c545c6 100644
--- a/include/lazy.hpp
+++ b/include/lazy.hpp
@@ -84,11 +84,13 @@ namespace lazy {
       /**
        * 从一个any中load出数据
        */
-      virtual void load(std::any) = 0;
+      virtual void load(const std::any&) = 0;
       /**
        * dump出一个any数据
        */
       virtual std::any dump() = 0;
+
+      using lazy_base::unset;
    };
 
    // path的type可以有cv ref
@@ -126,8 +128,8 @@ namespace lazy {
          return *value;
       }
 
-      void load(std::any v) override {
-         value = std::any_cast<std::shared_ptr<const Type>>(v);
+      void load(const std::any& v) override {
+         value = std::any_cast<const std::shared_ptr<const Type>&>(v);
       }
 
       std::any dump() override {
@@ -193,8 +195,8 @@ namespace lazy {
       node& operator=(const node<Type>&) = delete;
       node& operator=(node<Type>&&) = delete;
 
-      void load(std::any v) override {
-         value = std::any_cast<std::shared_ptr<const RealType>>(v);
+      void load(const std::any& v) override {
+         value = std::any_cast<const std::shared_ptr<const RealType>&>(v);
       }
 
       std::any dump() override {
@@ -224,6 +226,12 @@ namespace lazy {
          return result;
       }
       void load(Snapshot& snapshot) {
+         // 快照之后新建的节点不在快照中, 它们的缓存也需要重置
+         for (auto& [weak, value] : snapshot) {
+            if (auto ptr = weak.lock(); ptr) {
+               ptr->unset();
+            }
+         }
          for (auto iter = snapshot.begin(); iter != snapshot.end();) {
             auto& [weak, value] = *iter;
             if (auto ptr = weak.lock(); ptr) {
-- 
2.43.0


From 7b0d1c13091ab7f535300edfc9d1ab44dabffcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:15 +0000
Subject: [PATCH 17/45] fix: simple update lost one of two terms given for both
 directions of a bond

The two directions of a bond are in the same group and were handed to
different processes, each starting from the old tensors, so the later
broadcast replaced the result of the other one. Terms on the same sites
are now handled by the same process, one after the other.
---
 include/square/simple_update_lattice.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/square/simple_update_lattice.hpp b/include/square/simple_update_lattice.hpp
index 4120730..391e91e 100644
--- a/include/square/simple_update_lattice.hpp
+++ b/include/square/simple_update_lattice.hpp
@@ -24,6 +24,7 @@
 #include <iostream>
 #include <map>
 #include <memory>
+#include <set>
 #include <tuple>
 #include <vector>
 
@@ -90,8 +91,15 @@ namespace square {
       void _single_group_simple_update(
             const std::vector<std::vector<std::tuple<int, int>>>& group,
             const std::map<std::vector<std::tuple<int, int>>, std::shared_ptr<const Tensor<T>>>& updater) {
+         // 同一条bond的两个方向作用在相同的格点上, 必须由同一个进程依次处理, 否则其中一个的结果会丢失
+         std::vector<int> owner;
+         std::map<std::set<std::tuple<int, int>>, int> owner_of_sites;
+         for (const auto& positions : group) {
+            auto sites = std::set<std::tuple<int, int>>(positions.begin(), positions.end());
+            owner.push_back(owner_of_sites.emplace(std::move(sites), owner_of_sites.size() % TAT::mpi.size).first->second);
+         }
          for (auto i = 0; i < group.size(); i++) {
-            if (i % TAT::mpi.size == TAT::mpi.rank) {
+            if (owner[i] == TAT::mpi.rank) {
                const auto& positions = group[i];
                const auto& tensor = *updater.at(positions);
                _single_term_simple_update(positions, tensor);
@@ -100,7 +108,7 @@ namespace square {
          MPI_Barrier(MPI_COMM_WORLD);
          for (auto i = 0; i < group.size(); i++) {
             const auto& positions = group[i];
-            auto root = i % TAT::mpi.size;
+            auto root = owner[i];
             for (const auto& [x, y] : positions) {
                lattice[x][y] = TAT::mpi.broadcast(lattice[x][y], root);
             }
-- 
2.43.0


From c22610b068ce96b305ee8a06bbeb500e605b69c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:02 +0000
Subject: [PATCH 18/45] fix: reading an incomplete square lattice used
 uninitialised counts

When the stream ended early the number of terms, the index of a term and
the size of the environment were uninitialised, which led to endless
loops and accesses outside the pool. Reading now stops at a failed
stream, as the other readers do.
---
 include/square/abstract_lattice.hpp          | 15 ++++++++++-----
 include/square/sampling_gradient_lattice.hpp |  6 +++++-
 include/square/simple_update_lattice.hpp     |  4 ++--
 3 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/include/square/abstract_lattice.hpp b/include/square/abstract_lattice.hpp
index 9bf6396..476fe03 100644
--- a/include/square/abstract_lattice.hpp
+++ b/include/square/abstract_lattice.hpp
@@ -107,21 +107,26 @@ namespace square {
       using TAT::operator>;
       in > lattice.M > lattice.N;
       in > lattice.dimension_physics;
-      Size pool_size;
+      Size pool_size = 0;
       in > pool_size;
       std::vector<std::shared_ptr<const Tensor<T>>> pool;
-      for (auto i = 0; i < pool_size; i++) {
+      for (auto i = 0; in && i < pool_size; i++) {
          Tensor<T> tensor;
          in > tensor;
          pool.push_back(std::make_shared<const Tensor<T>>(std::move(tensor)));
       }
-      Size map_size;
+      Size map_size = 0;
       in > map_size;
       lattice.hamiltonians.clear();
-      for (auto i = 0; i < map_size; i++) {
+      for (auto i = 0; in && i < map_size; i++) {
          std::vector<std::tuple<int, int>> positions;
-         int index;
+         int index = 0;
          in > positions > index;
+         if (!in || index < 0 || index >= pool.size()) {
+            // 数据不完整或损坏
+            in.setstate(std::ios::failbit);
+            break;
+         }
          lattice.hamiltonians[std::move(positions)] = pool[index];
       }
       return in;
diff --git a/include/square/sampling_gradient_lattice.hpp b/include/square/sampling_gradient_lattice.hpp
index 09111b4..1f41f58 100644
--- a/include/square/sampling_gradient_lattice.hpp
+++ b/include/square/sampling_gradient_lattice.hpp
@@ -575,8 +575,12 @@ namespace square {
       in > static_cast<AbstractNetworkLattice<T>&>(lattice);
       in > lattice.dimension_cut;
       std::vector<std::vector<int>> configuration;
-      lattice.spin = SpinConfiguration(&lattice);
       in > configuration;
+      if (!in) {
+         // 数据不完整
+         return in;
+      }
+      lattice.spin = SpinConfiguration(&lattice);
       if (!configuration.empty()) {
          lattice.initialize_spin(configuration);
       }
diff --git a/include/square/simple_update_lattice.hpp b/include/square/simple_update_lattice.hpp
index 391e91e..f54b8a3 100644
--- a/include/square/simple_update_lattice.hpp
+++ b/include/square/simple_update_lattice.hpp
@@ -348,10 +348,10 @@ namespace square {
    std::istream& operator>(std::istream& in, SimpleUpdateLattice<T>& lattice) {
       using TAT::operator>;
       in > static_cast<AbstractNetworkLattice<T>&>(lattice);
-      Size map_size;
+      Size map_size = 0;
       in > map_size;
       lattice.environment.clear();
-      for (auto i = 0; i < map_size; i++) {
+      for (auto i = 0; in && i < map_size; i++) {
          std::tuple<char, int, int> position;
          typename Tensor<T>::SingularType singular;
          in > position > singular;
-- 
2.43.0


From c76ed5e150722869fdeb2830969b4b951fab55b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:03 +0000
Subject: [PATCH 19/45] fix: sampling an operator with an empty row threw
 out_of_range

Rows without a nonzero element were missing from the tables of matrix
elements, so observing or hopping with e.g. SxSx+SySy failed as soon as
the two spins were parallel.
---
 include/square/sampling_gradient_lattice.hpp | 34 +++++++-------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/include/square/sampling_gradient_lattice.hpp b/include/square/sampling_gradient_lattice.hpp
index 1f41f58..be86ae3 100644
--- a/include/square/sampling_gradient_lattice.hpp
+++ b/include/square/sampling_gradient_lattice.hpp
@@ -481,16 +481,12 @@ namespace square {
                map[names[i]] = index[i];
             }
             auto value = tensor.const_at(map);
+            auto spins_in = std::vector<int>(index.begin(), index.begin() + body);
+            auto spins_out = std::vector<int>(index.begin() + body, index.end());
+            // 即使这一行全为零也需要存在
+            auto& row = result[std::move(spins_in)];
             if (value != T(0)) {
-               auto spins_in = std::vector<int>();
-               auto spins_out = std::vector<int>();
-               for (auto i = 0; i < body; i++) {
-                  spins_in.push_back(index[i]);
-               }
-               for (auto i = body; i < 2 * body; i++) {
-                  spins_out.push_back(index[i]);
-               }
-               result[std::move(spins_in)][std::move(spins_out)] = value;
+               row[std::move(spins_out)] = value;
             }
             int active_position = 0;
             index[active_position] += 1;
@@ -530,20 +526,12 @@ namespace square {
                map[names[i]] = index[i];
             }
             auto value = tensor.const_at(map);
-            if (value != T(0)) {
-               auto spins_in = std::vector<int>();
-               auto spins_out = std::vector<int>();
-               for (auto i = 0; i < body; i++) {
-                  spins_in.push_back(index[i]);
-               }
-               for (auto i = body; i < 2 * body; i++) {
-                  spins_out.push_back(index[i]);
-               }
-               if (spins_in != spins_out) {
-                  result[std::move(spins_in)][std::move(spins_out)] = value;
-               } else {
-                  result[std::move(spins_in)];
-               }
+            auto spins_in = std::vector<int>(index.begin(), index.begin() + body);
+            auto spins_out = std::vector<int>(index.begin() + body, index.end());
+            // 即使这一行全为零也需要存在
+            auto& row = result[spins_in];
+            if (value != T(0) && spins_in != spins_out) {
+               row[std::move(spins_out)] = value;
             }
             int active_position = 0;
             index[active_position] += 1;
-- 
2.43.0


From 134ce68b72d87136cbeb3475658f8dfc9f6dc9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:03 +0000
Subject: [PATCH 20/45] fix: square::conj did not compile for complex numbers

std::complex has no member conj, so sampling a complex lattice could not
be instantiated.
---
 include/square/basic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/square/basic.hpp b/include/square/basic.hpp
index 650db66..786495a 100644
--- a/include/square/basic.hpp
+++ b/include/square/basic.hpp
@@ -56,7 +56,7 @@ namespace square {
    template<typename T>
    T conj(T input) {
       if constexpr (TAT::is_complex_v<T>) {
-         return input.conj();
+         return std::conj(input);
       } else {
          return input;
       }
-- 
2.43.0


From 23b4048b191512e7cccf5e0de129c1395d926cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:03 +0000
Subject: [PATCH 21/45] fix: ergodic sampling gave NaN when some amplitude is
 zero

The local value was divided by the amplitude and multiplied by its
square afterwards.
---
 include/square/sampling_gradient_lattice.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/square/sampling_gradient_lattice.hpp b/include/square/sampling_gradient_lattice.hpp
index be86ae3..325256c 100644
--- a/include/square/sampling_gradient_lattice.hpp
+++ b/include/square/sampling_gradient_lattice.hpp
@@ -301,9 +301,10 @@ namespace square {
                         map[positions[i]] = spins_out[i];
                      }
                      T wss = spin(map, ws);
-                     value += scalar_to<real<T>>(element * wss / ws);
+                     // 权重为|ws|^2, 直接乘conj(ws)而不是除以ws, 因为ws可能为零
+                     value += scalar_to<real<T>>(element * wss * conj(ws));
                   }
-                  result[kind][positions] += value * std::norm(ws);
+                  result[kind][positions] += value;
                }
             }
             if (calculate_energy) {
-- 
2.43.0


From 9aa4f35c72418740195f292f61433ce0869510d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:03 +0000
Subject: [PATCH 22/45] fix: sampling used the elements of a former operator at
 the same address

The tables of matrix elements were found by the address of the operator,
which another operator takes over once the first one is released.
---
 include/square/sampling_gradient_lattice.hpp | 27 ++++++++++----------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/include/square/sampling_gradient_lattice.hpp b/include/square/sampling_gradient_lattice.hpp
index 325256c..5b2cbbc 100644
--- a/include/square/sampling_gradient_lattice.hpp
+++ b/include/square/sampling_gradient_lattice.hpp
@@ -201,7 +201,7 @@ namespace square {
                      current_spin.push_back(spin.configuration[std::get<0>(positions[i])][std::get<1>(positions[i])]);
                   }
                   real<T> value = 0;
-                  for (const auto& [spins_out, element] : _find_element(*tensor).at(current_spin)) {
+                  for (const auto& [spins_out, element] : _find_element(tensor).at(current_spin)) {
                      auto map = std::map<std::tuple<int, int>, int>();
                      for (auto i = 0; i < body; i++) {
                         map[positions[i]] = spins_out[i];
@@ -295,7 +295,7 @@ namespace square {
                   }
                   real<T> value = 0;
 
-                  for (const auto& [spins_out, element] : _find_element(*tensor).at(current_spin)) {
+                  for (const auto& [spins_out, element] : _find_element(tensor).at(current_spin)) {
                      auto map = std::map<std::tuple<int, int>, int>();
                      for (auto i = 0; i < body; i++) {
                         map[positions[i]] = spins_out[i];
@@ -431,7 +431,7 @@ namespace square {
          for (auto i = 0; i < body; i++) {
             current_spin.push_back(spin.configuration[std::get<0>(positions[i])][std::get<1>(positions[i])]);
          }
-         const auto& hamiltonian_elements = _find_hopping_element(*hamiltonian);
+         const auto& hamiltonian_elements = _find_hopping_element(hamiltonian);
          const auto& possible_hopping = hamiltonian_elements.at(current_spin);
          if (!possible_hopping.empty()) {
             int hopping_number = possible_hopping.size();
@@ -457,15 +457,16 @@ namespace square {
          return ws;
       }
 
-      inline static std::map<const Tensor<T>*, std::map<std::vector<int>, std::map<std::vector<int>, T>>> tensor_element_map = {};
+      // 使用shared_ptr作为键, 这样作为键的张量不会被释放, 它的地址也就不会被其他张量重用
+      inline static std::map<std::shared_ptr<const Tensor<T>>, std::map<std::vector<int>, std::map<std::vector<int>, T>>> tensor_element_map = {};
 
-      const std::map<std::vector<int>, std::map<std::vector<int>, T>>& _find_element(const Tensor<T>& tensor) const {
-         auto tensor_id = &tensor;
-         if (auto found = tensor_element_map.find(tensor_id); found != tensor_element_map.end()) {
+      const std::map<std::vector<int>, std::map<std::vector<int>, T>>& _find_element(const std::shared_ptr<const Tensor<T>>& tensor_pointer) const {
+         if (auto found = tensor_element_map.find(tensor_pointer); found != tensor_element_map.end()) {
             return found->second;
          }
+         const auto& tensor = *tensor_pointer;
          int body = tensor.names.size() / 2;
-         auto& result = tensor_element_map[tensor_id];
+         auto& result = tensor_element_map[tensor_pointer];
          auto names = std::vector<Name>();
          auto index = std::vector<int>();
          for (auto i = 0; i < body; i++) {
@@ -502,15 +503,15 @@ namespace square {
          }
       }
 
-      inline static std::map<const Tensor<T>*, std::map<std::vector<int>, std::map<std::vector<int>, T>>> tensor_hopping_element_map = {};
+      inline static std::map<std::shared_ptr<const Tensor<T>>, std::map<std::vector<int>, std::map<std::vector<int>, T>>> tensor_hopping_element_map = {};
 
-      const std::map<std::vector<int>, std::map<std::vector<int>, T>>& _find_hopping_element(const Tensor<T>& tensor) const {
-         auto tensor_id = &tensor;
-         if (auto found = tensor_hopping_element_map.find(tensor_id); found != tensor_hopping_element_map.end()) {
+      const std::map<std::vector<int>, std::map<std::vector<int>, T>>& _find_hopping_element(const std::shared_ptr<const Tensor<T>>& tensor_pointer) const {
+         if (auto found = tensor_hopping_element_map.find(tensor_pointer); found != tensor_hopping_element_map.end()) {
             return found->second;
          }
+         const auto& tensor = *tensor_pointer;
          int body = tensor.names.size() / 2;
-         auto& result = tensor_hopping_element_map[tensor_id];
+         auto& result = tensor_hopping_element_map[tensor_pointer];
          auto names = std::vector<Name>();
          auto index = std::vector<int>();
          for (auto i = 0; i < body; i++) {
-- 
2.43.0


From 0671bf519a78061e7d7841bd0785f055baea7040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:40 +0000
Subject: [PATCH 23/45] fix: assigning a sampling lattice leaked the former one

The new lattice was constructed on top of the old one without destroying
it; if that construction failed the object was destroyed twice.
---
 include/square/sampling_gradient_lattice.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/square/sampling_gradient_lattice.hpp b/include/square/sampling_gradient_lattice.hpp
index 5b2cbbc..9562542 100644
--- a/include/square/sampling_gradient_lattice.hpp
+++ b/include/square/sampling_gradient_lattice.hpp
@@ -106,13 +106,19 @@ namespace square {
       }
       SamplingGradientLattice<T>& operator=(const SamplingGradientLattice<T>& other) {
          if (this != &other) {
-            new (this) SamplingGradientLattice<T>(other);
+            AbstractNetworkLattice<T>::operator=(other);
+            dimension_cut = other.dimension_cut;
+            spin = SpinConfiguration<T>(this);
+            initialize_spin(other.spin.configuration);
          }
          return *this;
       }
       SamplingGradientLattice<T>& operator=(SamplingGradientLattice<T>&& other) {
          if (this != &other) {
-            new (this) SamplingGradientLattice<T>(std::move(other));
+            AbstractNetworkLattice<T>::operator=(std::move(other));
+            dimension_cut = other.dimension_cut;
+            spin = SpinConfiguration<T>(this);
+            initialize_spin(other.spin.configuration);
          }
          return *this;
       }
-- 
2.43.0


From d414a43a1fa393a90af418b53ae9c911b6c0f1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:40 +0000
Subject: [PATCH 24/45] fix: creating a sampling lattice did not restore the
 lazy graph in use

Afterwards the default graph was selected instead of the one of the
caller, and after a failure the graph of the destroyed object.
---
 include/square/auxiliaries_system.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/square/auxiliaries_system.hpp b/include/square/auxiliaries_system.hpp
index a822c49..d78e05b 100644
--- a/include/square/auxiliaries_system.hpp
+++ b/include/square/auxiliaries_system.hpp
@@ -57,6 +57,13 @@ namespace square {
       SquareAuxiliariesSystem& operator=(SquareAuxiliariesSystem&& other) = default;
 
       SquareAuxiliariesSystem(int M, int N, Size Dc) : M(M), N(N), dimension_cut(Dc) {
+         // 无论构造是否成功, 结束时都恢复之前使用的graph
+         struct graph_guard {
+            lazy::Graph& previous = lazy::current_graph();
+            ~graph_guard() {
+               lazy::use_graph(previous);
+            }
+         } guard;
          lazy::use_graph(graph);
          for (auto i = 0; i < M; i++) {
             auto& row = lattice.emplace_back();
@@ -380,8 +387,6 @@ namespace square {
                }
             }
          }
-
-         lazy::use_graph();
       }
 
       Tensor<T> operator()(const std::vector<std::tuple<int, int>>& holes, char hint_char = ' ') const {
-- 
2.43.0


From bc096cc483afeed9a1c55cdc0c56da6eb31cb7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:32 +0000
Subject: [PATCH 25/45] fix: processes could give the lattice edge names
 different numbers after working on another lattice

Compact names travel as numbers in the order of registration. Which names a
process uses while updating or sampling depends on its share of the work, so a
lattice with directions the earlier lattice did not have got different numbers
on different processes and broadcast tensors had wrong names.

Register all five edge names whenever a lattice is created.
---
 include/square/abstract_network_lattice.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/square/abstract_network_lattice.hpp b/include/square/abstract_network_lattice.hpp
index 2afd0a2..d00c1dc 100644
--- a/include/square/abstract_network_lattice.hpp
+++ b/include/square/abstract_network_lattice.hpp
@@ -39,6 +39,10 @@ namespace square {
       AbstractNetworkLattice<T>& operator=(AbstractNetworkLattice<T>&&) = default;
 
       AbstractNetworkLattice(int M, int N, Size D, Size d) : AbstractLattice<T>(M, N, d), dimension_virtual(D) {
+         // 各进程采样时使用名称的顺序不同, 所以在此之前按相同的顺序注册格点张量的所有名称, 否则之后各进程中这些名称的标号可能不同
+         for (const auto& name : {"P", "U", "L", "D", "R"}) {
+            static_cast<void>(Name(name));
+         }
          for (auto i = 0; i < M; i++) {
             auto& row = lattice.emplace_back();
             for (auto j = 0; j < N; j++) {
-- 
2.43.0


From 9eee00866d349bb9a643b93092ed232bfc82c503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:36 +0000
Subject: [PATCH 26/45] fix: python auxiliaries refresh the lines above a
 changed site up to the first one

---
 square/auxiliaries.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/square/auxiliaries.py b/square/auxiliaries.py
index dbe7ece..7651fc7 100644
--- a/square/auxiliaries.py
+++ b/square/auxiliaries.py
@@ -147,7 +147,7 @@ class SquareAuxiliariesSystem:
                     self._try_to_delete_auxiliaries("left-to-right-3-1", index - 1, j)
                     self._try_to_delete_auxiliaries("right-to-left-3-1", index - 1, j)
                 if flag:
-                    self._refresh_line(kind, index + 1)
+                    self._refresh_line(kind, index - 1)
         else:
             raise ValueError("Wrong Type in Refresh Line")
 
-- 
2.43.0


From e07893f37964d473de765c6cb7b42285ac8d40de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:36 +0000
Subject: [PATCH 27/45] fix: combining two python auxiliaries systems takes
 over the tensors of the other one

---
 square/auxiliaries.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/square/auxiliaries.py b/square/auxiliaries.py
index 7651fc7..925a594 100644
--- a/square/auxiliaries.py
+++ b/square/auxiliaries.py
@@ -58,6 +58,10 @@ class SquareAuxiliariesSystem:
                     # 这里不比较是否值一样, 只要不是同一个id, 就会报错
                     if self._lattice[i][j] is not other._lattice[i][j]:
                         raise ValueError("Overlap tensor in lattice when combining two SquareAuxiliariesSystem")
+        for i in range(self._M):
+            for j in range(self._N):
+                if self._lattice[i][j] is None:
+                    self._lattice[i][j] = other._lattice[i][j]
         self._auxiliaries |= other._auxiliaries
         return self
 
-- 
2.43.0


From a8aa4d31e4b03a2ae252784fdad9f48b35af789f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:36 +0000
Subject: [PATCH 28/45] fix: combining two python spin configurations takes
 over the spins of the other one

---
 square/sampling_gradient_lattice.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/square/sampling_gradient_lattice.py b/square/sampling_gradient_lattice.py
index e7a1703..5095d20 100644
--- a/square/sampling_gradient_lattice.py
+++ b/square/sampling_gradient_lattice.py
@@ -55,6 +55,10 @@ class SpinConfiguration(SquareAuxiliariesSystem):
                     if self.configuration[i][j] != other.configuration[i][j]:
                         raise ValueError("Overlap configuration when combining two spin configuration")
         super().__iadd__(other)
+        for i in range(self._M):
+            for j in range(self._N):
+                if self.configuration[i][j] == -1:
+                    self.configuration[i][j] = other.configuration[i][j]
         return self
 
     def __add__(self, other: SpinConfiguration) -> SpinConfiguration:
-- 
2.43.0


From 2e4e1ab1190a596c91536aa3180a5cc942f51a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:36 +0000
Subject: [PATCH 29/45] fix: adding two python spin configurations starts from
 the left one

---
 square/sampling_gradient_lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/square/sampling_gradient_lattice.py b/square/sampling_gradient_lattice.py
index 5095d20..40d2fad 100644
--- a/square/sampling_gradient_lattice.py
+++ b/square/sampling_gradient_lattice.py
@@ -62,7 +62,7 @@ class SpinConfiguration(SquareAuxiliariesSystem):
         return self
 
     def __add__(self, other: SpinConfiguration) -> SpinConfiguration:
-        result = SpinConfiguration(other)
+        result = SpinConfiguration(self)
         result += other
         return result
 
-- 
2.43.0


From 457449c263b73747d4e441ee631618edfff1b2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:47 +0000
Subject: [PATCH 30/45] fix: the spins of a copied python sampling lattice
 refer to the copy

---
 square/sampling_gradient_lattice.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/square/sampling_gradient_lattice.py b/square/sampling_gradient_lattice.py
index 40d2fad..fcb0247 100644
--- a/square/sampling_gradient_lattice.py
+++ b/square/sampling_gradient_lattice.py
@@ -110,6 +110,7 @@ class SamplingGradientLattice(AbstractNetworkLattice):
 
         self.dimension_cut: int = other.dimension_cut
         self.spin: SpinConfiguration = SpinConfiguration(other.spin)
+        self.spin.lattice = self
 
     @multimethod
     def __init__(self, other: simple_update_lattice.SimpleUpdateLattice, *, Dc: int = 2) -> None:
-- 
2.43.0


From c1207ea24d1626ff265ceaa4e773f5a84d3d8261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:47 +0000
Subject: [PATCH 31/45] fix: python sampling accepts operators without any
 element for some spins

---
 square/sampling_gradient_lattice.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/square/sampling_gradient_lattice.py b/square/sampling_gradient_lattice.py
index fcb0247..98c876c 100644
--- a/square/sampling_gradient_lattice.py
+++ b/square/sampling_gradient_lattice.py
@@ -291,11 +291,11 @@ class SamplingGradientLattice(AbstractNetworkLattice):
         index = [0 for _ in range(2 * body)]
         while True:
             value: float = tensor[{names[i]: index[i] for i in range(2 * body)}]
+            spins_in = tuple(index[:body])
+            spins_out = tuple(index[body:])
+            if spins_in not in result:
+                result[spins_in] = {}
             if value != 0:
-                spins_in = tuple(index[:body])
-                spins_out = tuple(index[body:])
-                if spins_in not in result:
-                    result[spins_in] = {}
                 result[spins_in][spins_out] = value
             active_position = 0
             index[active_position] += 1
-- 
2.43.0


From 8afe474fbfaa645e60cd89b8c5248b59f5c3eeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:47 +0000
Subject: [PATCH 32/45] fix: python sampling does not add the energy to the
 observers of its caller

---
 square/sampling_gradient_lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/square/sampling_gradient_lattice.py b/square/sampling_gradient_lattice.py
index 98c876c..8a7d36f 100644
--- a/square/sampling_gradient_lattice.py
+++ b/square/sampling_gradient_lattice.py
@@ -189,7 +189,7 @@ class SamplingGradientLattice(AbstractNetworkLattice):
         if calculate_energy:
             if "Energy" in observers:
                 raise ValueError("Already set energy in obesevers")
-            observers["Energy"] = self.hamiltonian
+            observers = {**observers, "Energy": self.hamiltonian}
         result: Dict[Any, Dict[Tuple[Tuple[int, int], ...], Tensor]] = {kind: {positions: 0 for positions in group} for kind, group in observers.items()}
         if calculate_gradient:
             result["Delta"] = {}
@@ -237,7 +237,7 @@ class SamplingGradientLattice(AbstractNetworkLattice):
         if calculate_energy:
             if "Energy" in observers:
                 raise ValueError("Already set energy in obesevers")
-            observers["Energy"] = self.hamiltonian
+            observers = {**observers, "Energy": self.hamiltonian}
         result: Dict[Any, Dict[Tuple[Tuple[int, int], ...], Tensor]] = {kind: {positions: 0 for positions in group} for kind, group in observers.items()}
         # ergodic sampling
         sum_of_ws_square: float = 0
-- 
2.43.0


From f5ec3d16c15dc2bb4a5acd886b272a3d6c2f61a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:47 +0000
Subject: [PATCH 33/45] fix: python ergodic sampling accepts configurations of
 weight zero

---
 square/sampling_gradient_lattice.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/square/sampling_gradient_lattice.py b/square/sampling_gradient_lattice.py
index 8a7d36f..fc542f6 100644
--- a/square/sampling_gradient_lattice.py
+++ b/square/sampling_gradient_lattice.py
@@ -254,9 +254,9 @@ class SamplingGradientLattice(AbstractNetworkLattice):
                     value = 0
                     for spins_out, element in self._find_element(tensor)[current_spins].items():
                         wss = float(self.spin[{positions[i]: spins_out[i] for i in range(body)}])
-                        value += element * wss / ws
-                    result[kind][positions] += value * ws * ws
-            if "Energy" in result:
+                        value += element * wss * ws
+                    result[kind][positions] += value
+            if "Energy" in result and sum_of_ws_square != 0:
                 energy_result = result["Energy"]
                 print(f", Energy={sum(energy_result.values()) / (sum_of_ws_square * self.M * self.N)}", end="\r")
             else:
-- 
2.43.0


From 3016ca3934c6b64b5a70e31f4cf6fea5d9c2b332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:03 +0000
Subject: [PATCH 34/45] fix: python sampling does not use elements remembered
 of operators that are gone or have changed

---
 square/sampling_gradient_lattice.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/square/sampling_gradient_lattice.py b/square/sampling_gradient_lattice.py
index fc542f6..f5affa0 100644
--- a/square/sampling_gradient_lattice.py
+++ b/square/sampling_gradient_lattice.py
@@ -170,6 +170,7 @@ class SamplingGradientLattice(AbstractNetworkLattice):
             ws = self._hopping_spin_single_step_single_term(ws, positions, hamiltonian)
 
     def equilibrate(self, step: int):
+        self.tensor_element_dict.clear()
         for t in range(step):
             print(f"Equilibrating, total_step={step}, dimension={self.dimension_virtual}, dimension_cut={self.dimension_cut}, step={t}", end="\r")
             self._hopping_spin_single_step()
@@ -185,6 +186,7 @@ class SamplingGradientLattice(AbstractNetworkLattice):
                      *,
                      calculate_energy: bool = False,
                      calculate_gradient: bool = False) -> Dict[Any, Dict[Tuple[Tuple[int, int]]], Tensor]:
+        self.tensor_element_dict.clear()
         # 准备结果的容器
         if calculate_energy:
             if "Energy" in observers:
@@ -233,6 +235,7 @@ class SamplingGradientLattice(AbstractNetworkLattice):
         return result
 
     def ergodic(self, observers: Dict[Any, Dict[Tuple[Tuple[int, int], ...], Tensor]] = {}, *, calculate_energy: bool = False) -> Dict[Any, Dict[Tuple[Tuple[int, int]]], Tensor]:
+        self.tensor_element_dict.clear()
         # 准备结果的容器
         if calculate_energy:
             if "Energy" in observers:
-- 
2.43.0


From 4f85b3a5b49af70039946df9cc5431438cc8b374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:03 +0000
Subject: [PATCH 35/45] fix: updating a copied python exact lattice changed the
 original

---
 square/exact_lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/square/exact_lattice.py b/square/exact_lattice.py
index 5de43f8..dc46b56 100644
--- a/square/exact_lattice.py
+++ b/square/exact_lattice.py
@@ -40,7 +40,7 @@ class ExactLattice(AbstractLattice):
     @multimethod
     def __init__(self, other: ExactLattice) -> None:
         super().__init__(other)
-        self.vector: Tensor = other.vector
+        self.vector: Tensor = other.vector.copy()
 
     @multimethod
     def __init__(self, other: simple_update_lattice.SimpleUpdateLattice) -> None:
-- 
2.43.0


From 3b8c01b3eaeeaa665369781d9a54bbda0a5f07e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:05 +0000
Subject: [PATCH 36/45] fix: python markov chains could not draw random numbers

---
 PyTAT/PyTAT.cpp                     | 6 +++---
 square/sampling_gradient_lattice.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/PyTAT/PyTAT.cpp b/PyTAT/PyTAT.cpp
index cc2be5e..ebd94bd 100644
--- a/PyTAT/PyTAT.cpp
+++ b/PyTAT/PyTAT.cpp
@@ -752,7 +752,7 @@ namespace TAT {
       random_m.def(
             "uniform_int",
             [](int min, int max) {
-               return [distribution = std::uniform_int_distribution<int>(min, max)]() mutable { return distribution(random_engine); };
+               return std::function<int()>([distribution = std::uniform_int_distribution<int>(min, max)]() mutable { return distribution(random_engine); });
             },
             py::arg("min") = 0,
             py::arg("max") = 1,
@@ -760,7 +760,7 @@ namespace TAT {
       random_m.def(
             "uniform_real",
             [](double min, double max) {
-               return [distribution = std::uniform_real_distribution<double>(min, max)]() mutable { return distribution(random_engine); };
+               return std::function<double()>([distribution = std::uniform_real_distribution<double>(min, max)]() mutable { return distribution(random_engine); });
             },
             py::arg("min") = 0,
             py::arg("max") = 1,
@@ -768,7 +768,7 @@ namespace TAT {
       random_m.def(
             "normal",
             [](double mean, double stddev) {
-               return [distribution = std::normal_distribution<double>(mean, stddev)]() mutable { return distribution(random_engine); };
+               return std::function<double()>([distribution = std::normal_distribution<double>(mean, stddev)]() mutable { return distribution(random_engine); });
             },
             py::arg("mean") = 0,
             py::arg("stddev") = 1,
diff --git a/square/sampling_gradient_lattice.py b/square/sampling_gradient_lattice.py
index f5affa0..11d0d52 100644
--- a/square/sampling_gradient_lattice.py
+++ b/square/sampling_gradient_lattice.py
@@ -151,12 +151,12 @@ class SamplingGradientLattice(AbstractNetworkLattice):
                 possible_hopping.append((spins_out, element))
         if possible_hopping:
             hopping_number = len(possible_hopping)
-            spins_new, element = possible_hopping[TAT.random.uniform_int(0, hopping_number - 1)]
+            spins_new, element = possible_hopping[TAT.random.uniform_int(0, hopping_number - 1)()]
             replacement = {positions[i]: spins_new[i] for i in range(body)}
             wss = float(self.spin[replacement])
             p = (wss**2) / (ws**2)
             # TODO 这里还需要统计一个额外的系数, 但是这个系数在Heisenberg模型中不存在, 所以目前没问题
-            if TAT.random.uniform_real(0, 1) < p:
+            if TAT.random.uniform_real(0, 1)() < p:
                 ws = wss
                 for i in range(body):
                     self.spin[positions[i][0], positions[i][1]] = spins_new[i]
-- 
2.43.0


From 453873b6194bb1eae084f7c0663decc5baf496fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:41 +0000
Subject: [PATCH 37/45] fix: python markov chains summed up wrong gradients

---
 square/sampling_gradient_lattice.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/square/sampling_gradient_lattice.py b/square/sampling_gradient_lattice.py
index 11d0d52..3e7bcc9 100644
--- a/square/sampling_gradient_lattice.py
+++ b/square/sampling_gradient_lattice.py
@@ -205,6 +205,7 @@ class SamplingGradientLattice(AbstractNetworkLattice):
             self._hopping_spin_single_step()
             print(f"Markov sampling, total_step={step}, dimension={self.dimension_virtual}, dimension_cut={self.dimension_cut}, step={t}", end="")
             ws = float(self.spin[None])
+            Es = 0
             for kind, group in observers.items():
                 for positions, tensor in group.items():
                     body: int = len(positions)
@@ -214,11 +215,12 @@ class SamplingGradientLattice(AbstractNetworkLattice):
                         wss = float(self.spin[{positions[i]: spins_out[i] for i in range(body)}])
                         value += element * wss / ws
                     result[kind][positions] += value
+                    if kind == "Energy":
+                        Es += value
             if calculate_gradient:
-                Es = sum(result["Energy"].values());
                 for i in range(self.M):
                     for j in range(self.N):
-                        this_delta = self.spin[((i, j),)]
+                        this_delta = self.spin[((i, j),)] / ws
                         result["Delta"][((i, j),)] += this_delta
                         result["EDelta"][((i, j),)] += Es * this_delta
             if "Energy" in result:
-- 
2.43.0


From b3e9d109080435a2b9ff599bdf1bc26a4ba5a2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:38 +0000
Subject: [PATCH 38/45] fix: simple update exchanged the sites of a term given
 from right to left or from bottom to top

---
 include/square/simple_update_lattice.hpp | 8 ++++++--
 square/simple_update_lattice.py          | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/square/simple_update_lattice.hpp b/include/square/simple_update_lattice.hpp
index f54b8a3..d1eb925 100644
--- a/include/square/simple_update_lattice.hpp
+++ b/include/square/simple_update_lattice.hpp
@@ -214,7 +214,7 @@ namespace square {
             const auto& position_2 = positions[1];
             if (std::get<0>(position_1) == std::get<0>(position_2)) {
                if (std::get<1>(position_1) == std::get<1>(position_2) + 1) {
-                  _single_term_simple_update_horizontal_bond(position_2, updater);
+                  _single_term_simple_update_horizontal_bond(position_2, _exchange_sites(updater));
                   return;
                }
                if (std::get<1>(position_1) + 1 == std::get<1>(position_2)) {
@@ -224,7 +224,7 @@ namespace square {
             }
             if (std::get<1>(position_1) == std::get<1>(position_2)) {
                if (std::get<0>(position_1) == std::get<0>(position_2) + 1) {
-                  _single_term_simple_update_vertical_bond(position_2, updater);
+                  _single_term_simple_update_vertical_bond(position_2, _exchange_sites(updater));
                   return;
                }
                if (std::get<0>(position_1) + 1 == std::get<0>(position_2)) {
@@ -236,6 +236,10 @@ namespace square {
          throw NotImplementedError("Unsupported simple update style");
       }
 
+      static Tensor<T> _exchange_sites(const Tensor<T>& updater) {
+         return updater.edge_rename({{"I0", "I1"}, {"I1", "I0"}, {"O0", "O1"}, {"O1", "O0"}});
+      }
+
       void _single_term_simple_update_single_site(const std::tuple<int, int>& position, const Tensor<T>& updater) {
          auto [i, j] = position;
          lattice[i][j] = lattice[i][j].contract(updater, {{"P", "I0"}}).edge_rename({{"O0", "P"}});
diff --git a/square/simple_update_lattice.py b/square/simple_update_lattice.py
index 98f7161..adf23a6 100644
--- a/square/simple_update_lattice.py
+++ b/square/simple_update_lattice.py
@@ -93,16 +93,20 @@ class SimpleUpdateLattice(AbstractNetworkLattice):
             position_1, position_2 = positions
             if position_1[0] == position_2[0]:
                 if position_1[1] == position_2[1] + 1:
-                    return self._single_term_simple_update_double_site_nearest_horizontal(position_2, updater)
+                    return self._single_term_simple_update_double_site_nearest_horizontal(position_2, self._exchange_sites(updater))
                 if position_2[1] == position_1[1] + 1:
                     return self._single_term_simple_update_double_site_nearest_horizontal(position_1, updater)
             if position_1[1] == position_2[1]:
                 if position_1[0] == position_2[0] + 1:
-                    return self._single_term_simple_update_double_site_nearest_vertical(position_2, updater)
+                    return self._single_term_simple_update_double_site_nearest_vertical(position_2, self._exchange_sites(updater))
                 if position_2[0] == position_1[0] + 1:
                     return self._single_term_simple_update_double_site_nearest_vertical(position_1, updater)
         raise NotImplementedError("Unsupported simple update style")
 
+    @staticmethod
+    def _exchange_sites(updater: Tensor) -> Tensor:
+        return updater.edge_rename({"I0": "I1", "I1": "I0", "O0": "O1", "O1": "O0"})
+
     def _single_term_simple_update_double_site_nearest_horizontal(self, position: Tuple[int, int], updater: Tensor) -> None:
         i, j = position
         left = self[i, j]
-- 
2.43.0


From e1efd26ac005b4f7bd30436379693ccd3f05463d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:08 +0000
Subject: [PATCH 39/45] fix: in-place arithmetic with an element of the same
 tensor gave results depending on whether data was shared

---
 include/TAT/scalar.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/TAT/scalar.hpp b/include/TAT/scalar.hpp
index 481aef5..019dffa 100644
--- a/include/TAT/scalar.hpp
+++ b/include/TAT/scalar.hpp
@@ -165,7 +165,7 @@ namespace TAT {
          tensor_1.core = std::make_shared<Core<ScalarType1, Symmetry>>(*tensor_1.core);                                                          \
          TAT_warning_or_error_when_copy_shared("Inplace operator on tensor shared, copy happened here");                                         \
       }                                                                                                                                          \
-      const auto& y = number_2;                                                                                                                  \
+      const auto y = number_2; /* number_2可能是tensor_1中的元素 */                                                                             \
       for (auto& [symmetries, block] : tensor_1.core->blocks) {                                                                                  \
          ScalarType1* __restrict a = block.data();                                                                                               \
          for (Size j = 0; j < block.size(); j++) {                                                                                               \
@@ -177,7 +177,7 @@ namespace TAT {
    template<typename ScalarType1, typename ScalarType2, typename Symmetry, typename Name, typename = std::enable_if_t<is_scalar_v<ScalarType2>>> \
    Singular<ScalarType1, Symmetry, Name>& OP(Singular<ScalarType1, Symmetry, Name>& singular, const ScalarType2& number) {                       \
       auto timer_guard = scalar_inplace_guard();                                                                                                 \
-      const auto& y = number;                                                                                                                    \
+      const auto y = number; /* number可能是singular中的元素 */                                                                                 \
       for (auto& [symmetry, singulars] : singular.value) {                                                                                       \
          real_base_t<ScalarType1>* __restrict a = singulars.data();                                                                              \
          for (Size j = 0; j < singulars.size(); j++) {                                                                                           \
-- 
2.43.0


From 8544911a73033963b8df1280a24b99f87a6c8d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:13 +0000
Subject: [PATCH 40/45] fix: expectation values of complex state vectors lacked
 the complex conjugate

---
 include/square/exact_lattice.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/square/exact_lattice.hpp b/include/square/exact_lattice.hpp
index a5e7097..663686e 100644
--- a/include/square/exact_lattice.hpp
+++ b/include/square/exact_lattice.hpp
@@ -90,7 +90,7 @@ namespace square {
       }
 
       real<T> denominator() const {
-         return vector.contract_all_edge(vector).template to<real<T>>();
+         return vector.contract_all_edge(vector.conjugate()).template to<real<T>>();
       }
 
       template<typename C>
@@ -108,7 +108,7 @@ namespace square {
          }
          auto numerator = common_vector.contract_all_edge(common_observer.edge_rename(map_in))
                                 .edge_rename(map_out)
-                                .contract_all_edge(common_vector)
+                                .contract_all_edge(common_vector.conjugate())
                                 .template to<real<T>>();
          if (calculate_denominator) {
             return real<T>(numerator) / denominator();
-- 
2.43.0


From 49d2b3e3f9540460214d414614a2068791814ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:13 +0000
Subject: [PATCH 41/45] fix: markov sampling with gradients did not compile for
 complex lattices

---
 include/square/sampling_gradient_lattice.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/square/sampling_gradient_lattice.hpp b/include/square/sampling_gradient_lattice.hpp
index 9562542..4443f65 100644
--- a/include/square/sampling_gradient_lattice.hpp
+++ b/include/square/sampling_gradient_lattice.hpp
@@ -270,7 +270,8 @@ namespace square {
             for (auto i = 0; i < M; i++) {
                for (auto j = 0; j < N; j++) {
                   // TODO reduce gradient
-                  gradient[i][j] = 2 * (holes_with_Es[i][j] / total_step) - 2 * (sum_of_Es / total_step) * (holes[i][j] / total_step);
+                  gradient[i][j] =
+                        T(2) * (holes_with_Es[i][j] / T(total_step)) - T(2) * (sum_of_Es / T(total_step)) * (holes[i][j] / T(total_step));
                }
             }
          }
-- 
2.43.0


From f4a61e7befe3d92ee628ca572a0f41a95ea60db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:13 +0000
Subject: [PATCH 42/45] fix: sampling measured the transposed operator, which
 differs for complex operators

---
 include/square/sampling_gradient_lattice.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/square/sampling_gradient_lattice.hpp b/include/square/sampling_gradient_lattice.hpp
index 4443f65..eeb3b29 100644
--- a/include/square/sampling_gradient_lattice.hpp
+++ b/include/square/sampling_gradient_lattice.hpp
@@ -476,12 +476,13 @@ namespace square {
          auto& result = tensor_element_map[tensor_pointer];
          auto names = std::vector<Name>();
          auto index = std::vector<int>();
+         // 算符将I变为O, 所以<s|A|s'>中s对应O, s'对应I
          for (auto i = 0; i < body; i++) {
-            names.push_back("I" + std::to_string(i));
+            names.push_back("O" + std::to_string(i));
             index.push_back(0);
          }
          for (auto i = 0; i < body; i++) {
-            names.push_back("O" + std::to_string(i));
+            names.push_back("I" + std::to_string(i));
             index.push_back(0);
          }
          while (true) {
-- 
2.43.0


From ce6c058e48753e76e02f62209600453baad10a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:02 +0000
Subject: [PATCH 43/45] fix: edges and names handed to Python dangled when the
 tensor got other content

---
 PyTAT/PyTAT.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/PyTAT/PyTAT.cpp b/PyTAT/PyTAT.cpp
index ebd94bd..53e99a8 100644
--- a/PyTAT/PyTAT.cpp
+++ b/PyTAT/PyTAT.cpp
@@ -265,9 +265,11 @@ namespace TAT {
             tensor_m,
             tensor_name.c_str(),
             ("Tensor with scalar type as " + scalar_name + " and symmetry type " + symmetry_short_name + "Symmetry").c_str())
-            .def_readonly("name", &T::names, "Names of all edge of the tensor")
+            // 返回副本, 张量之后可能会更换其内容, 引用会失效
             .def_property_readonly(
-                  "edge", [](T& tensor) -> std::vector<E>& { return tensor.core->edges; }, "Edges of tensor")
+                  "name", [](const T& tensor) -> std::vector<DefaultName> { return tensor.names; }, "Names of all edge of the tensor")
+            .def_property_readonly(
+                  "edge", [](const T& tensor) -> std::vector<E> { return tensor.core->edges; }, "Edges of tensor")
             .def_property_readonly(
                   "data", [](T& tensor) -> auto& { return tensor.core->blocks; }, "All block data of the tensor")
             .def(py::self + py::self)
-- 
2.43.0


From 3bbb3677d3d67b538e8715026a8e3d3e3dde4b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:02 +0000
Subject: [PATCH 44/45] fix: Python took a tensor from incomplete text without
 an error

---
 PyTAT/PyTAT.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyTAT/PyTAT.cpp b/PyTAT/PyTAT.cpp
index 53e99a8..dbbabc2 100644
--- a/PyTAT/PyTAT.cpp
+++ b/PyTAT/PyTAT.cpp
@@ -325,6 +325,9 @@ namespace TAT {
                     auto ss = std::stringstream(string);
                     auto result = T();
                     ss >> result;
+                    if (ss.fail()) {
+                       throw std::runtime_error("Incomplete or invalid text of tensor");
+                    }
                     return result;
                  }),
                  "Read tensor from text string")
-- 
2.43.0


From 984efa8a0a1c3cd7cdbe52673c9f6c6ff6548807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:31 +0000
Subject: [PATCH 45/45] fix: a wrong block position in Python leaked the tensor
 and read beyond the list

---
 PyTAT/PyTAT.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/PyTAT/PyTAT.cpp b/PyTAT/PyTAT.cpp
index dbbabc2..6d43cb3 100644
--- a/PyTAT/PyTAT.cpp
+++ b/PyTAT/PyTAT.cpp
@@ -104,12 +104,32 @@ namespace TAT {
    struct unordered_block_of_tensor {
       py::object tensor;
       std::map<DefaultName, Symmetry> position;
+
+      // 位置错误需要在交给numpy之前抛出, 因为异常不应穿过python和numpy的C代码
+      void check() const {
+         (void)py::cast<const Tensor<ScalarType, Symmetry>&>(tensor).const_block(position);
+      }
    };
 
    template<typename ScalarType, typename Symmetry>
    struct ordered_block_of_tensor {
       py::object tensor;
       std::vector<std::tuple<DefaultName, Symmetry>> position;
+
+      void check() const {
+         const auto& real_tensor = py::cast<const Tensor<ScalarType, Symmetry>&>(tensor);
+         auto position_map = std::map<DefaultName, Symmetry>();
+         for (const auto& [name, symmetry] : position) {
+            if (real_tensor.name_to_index.find(name) == real_tensor.name_to_index.end()) {
+               throw std::out_of_range("Name not found in tensor when finding block");
+            }
+            position_map[name] = symmetry;
+         }
+         if (position.size() != real_tensor.names.size() || position_map.size() != real_tensor.names.size()) {
+            throw std::runtime_error("Name missing or duplicated in position when finding block");
+         }
+         (void)real_tensor.const_block(position_map);
+      }
    };
 
    template<typename Symmetry>
@@ -123,6 +143,7 @@ namespace TAT {
 
    template<typename Block>
    auto try_get_numpy_array(Block& block) {
+      block.check();
       auto result = py::cast(block, py::return_value_policy::move);
       try {
          return py::module_::import("numpy").attr("array")(result, py::arg("copy") = false);
@@ -133,6 +154,7 @@ namespace TAT {
 
    template<typename Block>
    auto try_set_numpy_array(Block& block, const py::object& object) {
+      block.check();
       auto result = py::cast(block, py::return_value_policy::move);
       try {
          result = py::module_::import("numpy").attr("array")(result, py::arg("copy") = false);
-- 
2.43.0

