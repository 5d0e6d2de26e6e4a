From d76a23e4b25a882a4782a39ca8e46c4e8354ae8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:41 +0000
Subject: [PATCH 01/62] fix: take the lock when clearing the cache

clear() modified the hash table without holding the mutex that save() and
restore() take, a data race when another thread uses the cache.
---
 pairinteraction/Cache.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pairinteraction/Cache.hpp b/pairinteraction/Cache.hpp
index af917fb..356dd24 100644
--- a/pairinteraction/Cache.hpp
+++ b/pairinteraction/Cache.hpp
@@ -97,7 +97,10 @@ public:
      *
      * Delete all elements in the cache
      */
-    void clear() { cache.clear(); }
+    void clear() {
+        std::lock_guard<std::mutex> lock(cache_mutex);
+        cache.clear();
+    }
 };
 
 #endif // CACHE_H
-- 
2.43.0


From 219e150f2e161b9c6f03b6a8fce0ed7ea2f3bcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:25 +0000
Subject: [PATCH 02/62] fix: make a quantum defect lookup atomic with respect
 to other threads

The name of the database the cache belongs to was compared and changed without
synchronisation, and looking up and filling the cache were separate steps.
Concurrent lookups returned data of another thread's database or failed with
"Cache smashing detected!".
---
 pairinteraction/QuantumDefect.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pairinteraction/QuantumDefect.cpp b/pairinteraction/QuantumDefect.cpp
index b3fd1d6..dd4354f 100644
--- a/pairinteraction/QuantumDefect.cpp
+++ b/pairinteraction/QuantumDefect.cpp
@@ -28,6 +28,7 @@
 #include <exception>
 #include <fstream>
 #include <iostream>
+#include <mutex>
 #include <sstream>
 #include <string>
 #include <utility>
@@ -86,6 +87,11 @@ QuantumDefect::QuantumDefect(std::string const &species, int n, int l, double j,
 void QuantumDefect::setup(sqlite3 *db, std::string const &db_name) {
     static Cache<Key, Element, Hash> cache;
     static std::string used_db_name;
+    static std::mutex setup_mutex;
+
+    // The cache content belongs to the database used last, hence look up and
+    // fill the cache as one step
+    std::lock_guard<std::mutex> lock(setup_mutex);
 
     if (used_db_name != db_name) {
         used_db_name = db_name;
-- 
2.43.0


From d6124f9c3fcbaf99cc6bff4b3f510e1eb5ceb640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 03/62] fix: load each user-supplied quantum defect database
 into an empty one

The in-memory database was kept between lookups, so that tables of a database
used before stayed visible: a missing or incomplete database file returned
another file's data, and a file with plain CREATE TABLE statements could be
used once per thread only.
---
 pairinteraction/QuantumDefect.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pairinteraction/QuantumDefect.cpp b/pairinteraction/QuantumDefect.cpp
index dd4354f..c6e6070 100644
--- a/pairinteraction/QuantumDefect.cpp
+++ b/pairinteraction/QuantumDefect.cpp
@@ -74,7 +74,7 @@ QuantumDefect::QuantumDefect(std::string const &species, int n, int l, double j,
         static thread_local EmbeddedDatabase embedded_database{};
         setup(embedded_database, database);
     } else {
-        static thread_local sqlite::handle db(":memory:");
+        sqlite::handle db(":memory:");
         sqlite::statement stmt(db);
         std::ifstream ifs(database);
         std::stringstream buffer;
-- 
2.43.0


From 2ecf70b0b1f1945655676c0d6262649498c781c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:57 +0000
Subject: [PATCH 04/62] fix: let copies of a quantum defect refer to their own
 data

The implicit copy constructor copied the reference members, so that a copy
read the data of the original, dangling once the original was destroyed.
---
 pairinteraction/QuantumDefect.cpp | 4 ++++
 pairinteraction/QuantumDefect.hpp | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/pairinteraction/QuantumDefect.cpp b/pairinteraction/QuantumDefect.cpp
index c6e6070..80064b7 100644
--- a/pairinteraction/QuantumDefect.cpp
+++ b/pairinteraction/QuantumDefect.cpp
@@ -61,6 +61,10 @@ QuantumDefect::QuantumDefect(std::string _species, int _n, int _l, double _j, st
     : e(), species(std::move(_species)), n(_n), l(_l), j(_j), ac(e.ac), Z(e.Z), a1(e.a1), a2(e.a2),
       a3(e.a3), a4(e.a4), rc(e.rc), nstar(e.nstar), energy(e.energy) {}
 
+QuantumDefect::QuantumDefect(QuantumDefect const &o)
+    : e(o.e), species(o.species), n(o.n), l(o.l), j(o.j), ac(e.ac), Z(e.Z), a1(e.a1), a2(e.a2),
+      a3(e.a3), a4(e.a4), rc(e.rc), nstar(e.nstar), energy(e.energy) {}
+
 QuantumDefect::QuantumDefect(std::string const &species, int n, int l, double j)
     : QuantumDefect(species, n, l, j, nullptr) {
     static thread_local EmbeddedDatabase embedded_database{};
diff --git a/pairinteraction/QuantumDefect.hpp b/pairinteraction/QuantumDefect.hpp
index 891a46b..f88f1d1 100644
--- a/pairinteraction/QuantumDefect.hpp
+++ b/pairinteraction/QuantumDefect.hpp
@@ -109,6 +109,12 @@ public:
      * j) */
     QuantumDefect(std::string const &species, int n, int l, double j, std::string const &database);
 
+    /** \brief Copy constructor
+     *
+     * The public references have to refer to the copied data.
+     */
+    QuantumDefect(QuantumDefect const &o);
+
     /** \brief Atomic species */
     const std::string species;
 
-- 
2.43.0


From 2de747f82a2073dea7efead7a0fa752bf10cd9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:28 +0000
Subject: [PATCH 05/62] fix: let the statement iterator visit every row exactly
 once

The result of the first step was ignored and the result of the later ones was
interpreted the wrong way around, so that a loop was correct for exactly two
rows only.
---
 pairinteraction/SQLite.hpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/pairinteraction/SQLite.hpp b/pairinteraction/SQLite.hpp
index 7ee0b6e..d2197e8 100644
--- a/pairinteraction/SQLite.hpp
+++ b/pairinteraction/SQLite.hpp
@@ -259,13 +259,12 @@ public:
     class iterator {
     private:
         statement *m_stmt;
-        bool m_done;
         bool m_end;
 
     public:
-        iterator() : m_stmt{nullptr}, m_done{true}, m_end{true} {}
+        iterator() : m_stmt{nullptr}, m_end{true} {}
 
-        explicit iterator(statement *p) : m_stmt{p}, m_done{false}, m_end{false} { m_stmt->step(); }
+        explicit iterator(statement *p) : m_stmt{p}, m_end{!m_stmt->step()} {}
 
         statement &operator*() const {
 #ifndef NDEBUG
@@ -275,11 +274,7 @@ public:
             return *m_stmt;
         }
         iterator &operator++() {
-            if (!m_done) {
-                m_done = m_stmt->step();
-            } else {
-                m_end = true;
-            }
+            m_end = !m_stmt->step();
             return *this;
         }
         bool operator!=(iterator const & /* unused */) const { return !m_end; }
-- 
2.43.0


From 78d91eebd8976bb470f9b67b516229eaf508187a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:41 +0000
Subject: [PATCH 06/62] fix: allow stepping a statement that was prepared anew

The flag saying that there are no more rows belonged to the previous query but
survived prepare(), so that the first step of the new query failed.
---
 pairinteraction/SQLite.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pairinteraction/SQLite.hpp b/pairinteraction/SQLite.hpp
index d2197e8..9f3d013 100644
--- a/pairinteraction/SQLite.hpp
+++ b/pairinteraction/SQLite.hpp
@@ -135,6 +135,7 @@ public:
         handle_error(err);
 
         m_prepared = true;
+        m_valid = true;
     }
 
     /** \brief Step the statement
-- 
2.43.0


From faaeb914f8c260ac3ad85bd2b44781e78cbe7838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:41 +0000
Subject: [PATCH 07/62] fix: read texts from the database in full and NULL as
 empty

Texts were cut at the first zero byte although they are bound with their
length, and reading a NULL column constructed a string from a null pointer.
---
 pairinteraction/SQLite.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pairinteraction/SQLite.hpp b/pairinteraction/SQLite.hpp
index 9f3d013..d985631 100644
--- a/pairinteraction/SQLite.hpp
+++ b/pairinteraction/SQLite.hpp
@@ -245,8 +245,12 @@ public:
     template <typename T,
               typename = typename std::enable_if<std::is_same<T, std::string>::value>::type>
     std::string get(int field) {
-        return std::string(
-            reinterpret_cast<char const *>(sqlite3_column_text(m_stmt.get(), field)));
+        auto const *text =
+            reinterpret_cast<char const *>(sqlite3_column_text(m_stmt.get(), field));
+        if (text == nullptr) { // NULL reads as empty, like it reads as zero for numbers
+            return {};
+        }
+        return std::string(text, sqlite3_column_bytes(m_stmt.get(), field));
     }
 #endif
 
-- 
2.43.0


From 133564ed61f765db7fcb29795a74152aac774100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:31 +0000
Subject: [PATCH 08/62] fix: write configuration keys to JSON files as they are

Keys containing a dot were interpreted as paths into nested objects and got
lost, and an empty key could not be written at all.
---
 pairinteraction/ConfParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pairinteraction/ConfParser.cpp b/pairinteraction/ConfParser.cpp
index 1b80465..002e082 100644
--- a/pairinteraction/ConfParser.cpp
+++ b/pairinteraction/ConfParser.cpp
@@ -41,7 +41,8 @@ void Configuration::save_to_json(std::string const &filename) const {
     ptree pt;
 
     for (auto const &p : *this) {
-        pt.put(p.first, p.second.str());
+        // put() would interpret dots in the key as a path
+        pt.push_back(ptree::value_type(p.first, ptree(p.second.str())));
     }
 
     write_json(filename, pt);
-- 
2.43.0


From 2439a42ca1a911ae185235dec20df77d56659bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:13 +0000
Subject: [PATCH 09/62] fix: store numbers in a configuration without loss of
 precision

Only six significant digits were kept, so that different parameters compared
equal, for example when looking for a cached matrix. Numbers that six digits
represent keep their text.
---
 pairinteraction/ConfParser.hpp | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/pairinteraction/ConfParser.hpp b/pairinteraction/ConfParser.hpp
index 833b9a2..2910b6e 100644
--- a/pairinteraction/ConfParser.hpp
+++ b/pairinteraction/ConfParser.hpp
@@ -20,6 +20,8 @@
 #ifndef CONF_PARSER_H
 #define CONF_PARSER_H
 
+#include <cstdlib>
+#include <limits>
 #include <map>
 #include <sstream>
 #include <string>
@@ -37,6 +39,21 @@ private:
     class value {
         std::string m_value;
 
+        // Shortest text that is converted back into the same number
+        template <typename T>
+        void set_floating_point(T const &rhs) {
+            for (int precision = 6; precision <= std::numeric_limits<T>::max_digits10;
+                 ++precision) {
+                std::ostringstream os;
+                os.precision(precision);
+                os << rhs;
+                m_value = os.str();
+                if (static_cast<T>(std::strtod(m_value.c_str(), nullptr)) == rhs) {
+                    break;
+                }
+            }
+        }
+
     public:
         value() = default;
 
@@ -52,6 +69,16 @@ private:
             return *this;
         }
 
+        value &operator<<(float const &rhs) {
+            set_floating_point(rhs);
+            return *this;
+        }
+
+        value &operator<<(double const &rhs) {
+            set_floating_point(rhs);
+            return *this;
+        }
+
         value &operator<<(std::string const &rhs) {
             m_value = rhs;
             return *this;
-- 
2.43.0


From 3f402dbcf3c6a3de05ee0724f2c95edaf061368e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:13 +0000
Subject: [PATCH 10/62] fix: discard the cached byte image when a matrix is
 assembled

---
 pairinteraction/Hamiltonianmatrix.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pairinteraction/Hamiltonianmatrix.cpp b/pairinteraction/Hamiltonianmatrix.cpp
index 5ca7da1..c509e67 100644
--- a/pairinteraction/Hamiltonianmatrix.cpp
+++ b/pairinteraction/Hamiltonianmatrix.cpp
@@ -84,6 +84,8 @@ void Hamiltonianmatrix<Scalar>::addEntries(idx_t row, idx_t col, Scalar val) {
 
 template <typename Scalar>
 void Hamiltonianmatrix<Scalar>::compress(size_t nBasis, size_t nCoordinates) {
+    bytes.clear();
+
     basis_.resize(nCoordinates, nBasis);
     entries_.resize(nBasis, nBasis);
     basis_.setFromTriplets(triplets_basis.begin(), triplets_basis.end());
-- 
2.43.0


From c1c88ba081c9e6e06fc73712deb9f4eac46fa5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:13 +0000
Subject: [PATCH 11/62] fix: restore matrices whose entries are all in the last
 column

---
 pairinteraction/Hamiltonianmatrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pairinteraction/Hamiltonianmatrix.cpp b/pairinteraction/Hamiltonianmatrix.cpp
index c509e67..89f4acc 100644
--- a/pairinteraction/Hamiltonianmatrix.cpp
+++ b/pairinteraction/Hamiltonianmatrix.cpp
@@ -464,7 +464,7 @@ void Hamiltonianmatrix<Scalar>::doDeserialization() {
     std::copy(entries_data.begin(), entries_data.end(), entries_.valuePtr());
     std::copy(entries_indices.begin(), entries_indices.end(), entries_.innerIndexPtr());
     std::copy(entries_indptr.begin(), entries_indptr.end(), entries_.outerIndexPtr());
-    entries_.finalize();
+    entries_.outerIndexPtr()[entries_.outerSize()] = entries_data.size();
 
     // build matrix "basis_"
     std::vector<Scalar> basis_data;
@@ -475,7 +475,7 @@ void Hamiltonianmatrix<Scalar>::doDeserialization() {
     std::copy(basis_data.begin(), basis_data.end(), basis_.valuePtr());
     std::copy(basis_indices.begin(), basis_indices.end(), basis_.innerIndexPtr());
     std::copy(basis_indptr.begin(), basis_indptr.end(), basis_.outerIndexPtr());
-    basis_.finalize();
+    basis_.outerIndexPtr()[basis_.outerSize()] = basis_data.size();
 }
 
 template <typename Scalar>
-- 
2.43.0


From 6f5d59632e5be5c47bea273782329282c88b457b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:24 +0000
Subject: [PATCH 12/62] fix: keep a matrix usable when loading another one into
 it fails

---
 pairinteraction/Hamiltonianmatrix.cpp | 28 +++++++++++++--------------
 pairinteraction/Hamiltonianmatrix.hpp |  2 +-
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/pairinteraction/Hamiltonianmatrix.cpp b/pairinteraction/Hamiltonianmatrix.cpp
index 89f4acc..b35c4ee 100644
--- a/pairinteraction/Hamiltonianmatrix.cpp
+++ b/pairinteraction/Hamiltonianmatrix.cpp
@@ -408,12 +408,11 @@ void Hamiltonianmatrix<Scalar>::doSerialization() {
 
 template <typename Scalar>
 void Hamiltonianmatrix<Scalar>::deserialize(bytes_t &bytesin) {
-    bytes = bytesin;
-    doDeserialization();
+    doDeserialization(bytesin);
 }
 
 template <typename Scalar>
-void Hamiltonianmatrix<Scalar>::doDeserialization() {
+void Hamiltonianmatrix<Scalar>::doDeserialization(const bytes_t &bytesin) {
     // deserialize vectors of primitive data types
     byte_t entries_flags;
     storage_idx_t entries_rows, entries_cols;
@@ -427,7 +426,7 @@ void Hamiltonianmatrix<Scalar>::doDeserialization() {
     std::vector<idx_t> basis_indptr;
 
     Serializer s;
-    s.load(bytes);
+    s.load(bytesin);
     s >> entries_flags;
     s >> entries_rows;
     s >> entries_cols;
@@ -455,6 +454,8 @@ void Hamiltonianmatrix<Scalar>::doDeserialization() {
         throw std::runtime_error(msg);
     }
 
+    bytes.clear();
+
     // build matrix "entries_"
     std::vector<Scalar> entries_data;
     mergeComplex(entries_data_real, entries_data_imag, entries_data);
@@ -511,23 +512,22 @@ template <typename Scalar>
 bool Hamiltonianmatrix<Scalar>::load(const std::string &fname) {
     try {
         // open file
-        if (FILE *pFile = fopen(fname.c_str(), "rb")) {
+        std::unique_ptr<FILE, int (*)(FILE *)> pFile(fopen(fname.c_str(), "rb"), &fclose);
+        if (pFile) {
             // obtain file size:
-            fseek(pFile, 0, SEEK_END);
-            size_t size_file = ftell(pFile);
-            rewind(pFile);
+            fseek(pFile.get(), 0, SEEK_END);
+            size_t size_file = ftell(pFile.get());
+            rewind(pFile.get());
 
             // read
-            bytes.resize(size_file / sizeof(byte_t));
-            size_t size_result = fread(&bytes[0], 1, sizeof(byte_t) * bytes.size(), pFile);
+            bytes_t bytes_file(size_file / sizeof(byte_t));
+            size_t size_result =
+                fread(bytes_file.data(), 1, sizeof(byte_t) * bytes_file.size(), pFile.get());
             if (size_result != size_file) {
                 throw std::runtime_error("Matrix could not be read from file.");
             }
 
-            // close file
-            fclose(pFile);
-
-            doDeserialization();
+            doDeserialization(bytes_file);
 
             return true;
         }
diff --git a/pairinteraction/Hamiltonianmatrix.hpp b/pairinteraction/Hamiltonianmatrix.hpp
index 829ddd5..5e8d051 100644
--- a/pairinteraction/Hamiltonianmatrix.hpp
+++ b/pairinteraction/Hamiltonianmatrix.hpp
@@ -101,7 +101,7 @@ public:
     bytes_t &serialize() override;
     void doSerialization();
     void deserialize(bytes_t &bytesin) override;
-    void doDeserialization();
+    void doDeserialization(const bytes_t &bytesin);
     uint64_t hashEntries();
     uint64_t hashBasis();
     void save(const std::string &fname);
-- 
2.43.0


From 400782df5078ee9b2f6127a52757f56f566888e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:52 +0000
Subject: [PATCH 13/62] fix: do not restrict the magnetic quantum number of an
 unlimited basis if that of the start state is negative

---
 pairinteraction/Basisnames.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pairinteraction/Basisnames.cpp b/pairinteraction/Basisnames.cpp
index d33ce83..61fe493 100644
--- a/pairinteraction/Basisnames.cpp
+++ b/pairinteraction/Basisnames.cpp
@@ -143,7 +143,7 @@ void BasisnamesOne::build(StateTwoOld startstate, const std::string &species) {
             std::fmax(startstate.n[0], startstate.n[1]) + delta_n - 0.5;
     }
     if (delta_m < 0) {
-        delta_m = std::fmax(startstate.m[0], startstate.m[1]) +
+        delta_m = std::fmax(std::fabs(startstate.m[0]), std::fabs(startstate.m[1])) +
             std::fmax(startstate.n[0], startstate.n[1]) + delta_n - 0.5;
     }
 
@@ -208,7 +208,7 @@ void BasisnamesOne::build(StateOneOld startstate, const std::string &species) {
         delta_j = startstate.j + startstate.n + delta_n - 0.5;
     }
     if (delta_m < 0) {
-        delta_m = startstate.m + startstate.n + delta_n - 0.5;
+        delta_m = std::fabs(startstate.m) + startstate.n + delta_n - 0.5;
     }
 
     // loop over quantum numbers
-- 
2.43.0


From 557d0f82e72b3bff624126db4d1117ea739f8c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:52 +0000
Subject: [PATCH 14/62] fix: number the states of an ordered basis by their
 position

---
 pairinteraction/Basisnames.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pairinteraction/Basisnames.cpp b/pairinteraction/Basisnames.cpp
index 61fe493..14bdf57 100644
--- a/pairinteraction/Basisnames.cpp
+++ b/pairinteraction/Basisnames.cpp
@@ -183,6 +183,9 @@ void BasisnamesOne::build(StateTwoOld startstate, const std::string &species) {
 
     std::set<StateOneOld> names_ordered(names_set.begin(), names_set.end());
     names_ = std::vector<StateOneOld>(names_ordered.begin(), names_ordered.end());
+    for (size_t i = 0; i < names_.size(); ++i) {
+        names_[i].idx = i;
+    }
 
     dim_ = idx;
 }
@@ -256,6 +259,9 @@ void BasisnamesOne::build(StateOneOld startstate, const std::string &species,
 
     std::set<StateOneOld> names_ordered(names_set.begin(), names_set.end());
     names_ = std::vector<StateOneOld>(names_ordered.begin(), names_ordered.end());
+    for (size_t i = 0; i < names_.size(); ++i) {
+        names_[i].idx = i;
+    }
 
     dim_ = idx;
 }
-- 
2.43.0


From 9daab49dd8a3eb232c416aa32bfaadf67f9cf44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:12 +0000
Subject: [PATCH 15/62] fix: combine reflection with permutation or inversion
 symmetry without duplicate pair states

Which pair of basis vectors represents a set of pairs related by symmetry was
decided per coordinate, so that pairs like (3/2,-1/2) and (1/2,-3/2) both gave
the same symmetrised vector and mixed one-atom vectors were cut to pieces.
---
 pairinteraction/Hamiltonianmatrix.cpp | 104 +++++++++++++++++---------
 1 file changed, 67 insertions(+), 37 deletions(-)

diff --git a/pairinteraction/Hamiltonianmatrix.cpp b/pairinteraction/Hamiltonianmatrix.cpp
index b35c4ee..5e3e062 100644
--- a/pairinteraction/Hamiltonianmatrix.cpp
+++ b/pairinteraction/Hamiltonianmatrix.cpp
@@ -24,7 +24,9 @@
 #include <Eigen/Eigenvalues>
 #include <fmt/format.h>
 
+#include <array>
 #include <stdexcept>
+#include <utility>
 
 template <typename Scalar>
 Hamiltonianmatrix<Scalar>::Hamiltonianmatrix() = default;
@@ -555,25 +557,46 @@ Hamiltonianmatrix<Scalar> combine(const Hamiltonianmatrix<Scalar> &lhs,
     ////////////////////////////////////////////////////////
 
     std::vector<size_t> mapping(num_coordinates, -1);
+    std::vector<std::pair<size_t, Scalar>> reflected1, reflected2;
     if (sym.reflection != NA) { // NOLINT
         std::unordered_map<StateTwoOld, size_t> buffer;
         for (auto state : *basis_two) {
-            if (state.m[0] < 0) {
-                continue;
-            }
             state.m[0] *= -1;
             state.m[1] *= -1;
             buffer[state] = state.idx;
         }
-        for (auto state : *basis_two) {
-            if (state.m[0] > 0) {
-                continue;
+        for (const auto &state : *basis_two) {
+            mapping[state.idx] = buffer[state];
+        }
+
+        // Determine onto which one-atom basis vectors the one-atom basis vectors are mapped
+        auto reflect = [&](const Eigen::SparseMatrix<Scalar> &basis, int atom) {
+            size_t num_others = (atom == 0) ? rhs.num_coordinates() : lhs.num_coordinates();
+            size_t step = (atom == 0) ? num_others : 1;
+            std::vector<Eigen::Triplet<Scalar>> triplets;
+            for (int idx = 0; idx < basis.rows(); ++idx) {
+                const auto &state = basis_two->get(idx * step);
+                size_t row = (atom == 0) ? mapping[idx * step] / step
+                                         : mapping[idx * step] % basis.rows();
+                triplets.emplace_back(
+                    row, idx, std::pow(-1, state.l[atom] + state.j[atom] + state.m[atom]));
             }
-            mapping[buffer[state]] = state.idx;
-            if (sym.inversion != NA || sym.permutation != NA) {
-                mapping[state.idx] = buffer[state];
+            Eigen::SparseMatrix<Scalar> operation(basis.rows(), basis.rows());
+            operation.setFromTriplets(triplets.begin(), triplets.end());
+            Eigen::SparseMatrix<Scalar> overlap = basis.adjoint() * (operation * basis);
+            std::vector<std::pair<size_t, Scalar>> reflected(basis.cols(), {0, 0});
+            for (int col = 0; col < overlap.outerSize(); ++col) {
+                for (typename Eigen::SparseMatrix<Scalar>::InnerIterator triple(overlap, col);
+                     triple; ++triple) {
+                    if (std::abs(triple.value()) > std::abs(reflected[col].second)) {
+                        reflected[col] = {triple.row(), triple.value()};
+                    }
+                }
             }
-        }
+            return reflected;
+        };
+        reflected1 = reflect(lhs.basis(), 0);
+        reflected2 = reflect(rhs.basis(), 1);
     }
 
     ////////////////////////////////////////////////////////
@@ -624,6 +647,34 @@ Hamiltonianmatrix<Scalar> combine(const Hamiltonianmatrix<Scalar> &lhs,
                 // combined diagonal element, is valid
                 bool existing = false;
 
+                // In case of reflection symmetry: skip half of the basis vector pairs unless the
+                // reflection maps the basis vector pair onto itself or its permutation
+                bool skip_reflection = false;
+                bool exchanged = false;
+                int parityR = 1;
+                if (sym.reflection != NA) {
+                    bool exchange = sym.inversion != NA || sym.permutation != NA;
+                    std::array<size_t, 2> pair = {static_cast<size_t>(col_1),
+                                                  static_cast<size_t>(col_2)};
+                    std::array<size_t, 2> image = {reflected1[col_1].first,
+                                                   reflected2[col_2].first};
+                    if (exchange && image[0] < image[1]) {
+                        std::swap(image[0], image[1]);
+                    }
+                    if (image > pair) {
+                        continue;
+                    }
+                    skip_reflection = (image == pair);
+                    exchanged = skip_reflection && reflected1[col_1].first != pair[0];
+                    parityR = (std::real(reflected1[col_1].second * reflected2[col_2].second) > 0)
+                        ? 1
+                        : -1;
+                    parityR *= (sym.reflection == EVEN) ? 1 : -1;
+                    if (skip_reflection && !exchanged && parityR != 1) {
+                        continue; // the basis vector pair has the other parity
+                    }
+                }
+
                 // --- Combine basis vectors for mat.basis() ---
                 for (typename Eigen::SparseMatrix<Scalar>::InnerIterator triple_1(lhs.basis(),
                                                                                   col_1);
@@ -645,32 +696,16 @@ Hamiltonianmatrix<Scalar> combine(const Hamiltonianmatrix<Scalar> &lhs,
 
                         // In case of inversion and reflection symmetry: check whether the inversion
                         // symmetric state is already reflection symmetric
-                        bool skip_reflection = false;
-                        if (sym.inversion != NA && col_1 != col_2 && sym.reflection != NA &&
-                            mapping[row] ==
-                                rhs.num_coordinates() * triple_2.row() + triple_1.row()) {
-                            if (((sym.inversion == EVEN) ? -parityL : parityL) !=
-                                ((sym.reflection == EVEN) ? parityL * parityJ * parityM
-                                                          : -parityL * parityJ * parityM)) {
-                                continue; // the parity under inversion and reflection is different
-                            }
-                            skip_reflection =
-                                true; // the parity under inversion and reflection is the same
+                        if (sym.inversion != NA && exchanged &&
+                            ((sym.inversion == EVEN) ? -parityL : parityL) != parityR) {
+                            continue; // the parity under inversion and reflection is different
                         }
 
                         // In case of permutation and reflection symmetry: check whether the
                         // permutation symmetric state is already reflection symmetric
-                        if (sym.permutation != NA && col_1 != col_2 && sym.reflection != NA &&
-                            mapping[row] ==
-                                rhs.num_coordinates() * triple_2.row() + triple_1.row()) {
-                            if (((sym.permutation == EVEN) ? -1 : 1) !=
-                                ((sym.reflection == EVEN) ? parityL * parityJ * parityM
-                                                          : -parityL * parityJ * parityM)) {
-                                continue; // the parity under permutation and reflection is
-                                          // different
-                            }
-                            skip_reflection =
-                                true; // the parity under permutation and reflection is the same
+                        if (sym.permutation != NA && exchanged &&
+                            ((sym.permutation == EVEN) ? -1 : 1) != parityR) {
+                            continue; // the parity under permutation and reflection is different
                         }
 
                         // In case of inversion and permutation symmetry: the inversion symmetric
@@ -692,11 +727,6 @@ Hamiltonianmatrix<Scalar> combine(const Hamiltonianmatrix<Scalar> &lhs,
                             continue;
                         }
 
-                        // In case of reflection symmetry: skip half of the coordinates
-                        if (sym.reflection != NA && state.m[0] < 0 && !skip_reflection) {
-                            continue;
-                        }
-
                         // Calculate coefficient that belongs to the current coordinate
                         Scalar val_basis = triple_1.value() * triple_2.value(); // coefficient
                         if (sym.reflection != NA && !skip_reflection) {
-- 
2.43.0


From b0c9206cdfb13258819f9d88985f6b6d7a29e537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:55 +0000
Subject: [PATCH 16/62] fix: compute the heights of the atoms above the plate
 and keep the geometry if it is rejected

The heights used z * sin(angle) instead of the component of the distance along
the normal of the plate, so that atoms inside the plate were accepted. A
rejected plate was used nevertheless by tensors requested afterwards.
---
 pairinteraction/GreenTensor.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pairinteraction/GreenTensor.cpp b/pairinteraction/GreenTensor.cpp
index 495b730..696737d 100644
--- a/pairinteraction/GreenTensor.cpp
+++ b/pairinteraction/GreenTensor.cpp
@@ -37,16 +37,17 @@ void GreenTensor::addSurface(double d) {
         throw std::runtime_error("The atoms must be in the xz-plane if a surface is present");
     }
 
-    double angle = std::atan(x / z);
+    double zA_new = d - z / 2.;
+    double zB_new = d + z / 2.;
 
-    zA = d - z * std::sin(angle) / 2.;
-    zB = d + z * std::sin(angle) / 2.;
-
-    if (zA < 0 || zB < 0) {
+    if (zA_new < 0 || zB_new < 0) {
         throw std::runtime_error(
             "zA or zB < 0. One of the atoms is inside the plate. Plate is half-space z < 0.");
     }
 
+    zA = zA_new;
+    zB = zB_new;
+
     dd_tensor_calculated = false;
     dq_tensor_calculated = false;
     qd_tensor_calculated = false;
-- 
2.43.0


From 4a6b4a412cde37f05a12c1c37e7e4e2c0bd6d411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:21 +0000
Subject: [PATCH 17/62] fix: include the derivatives along y in the
 dipole-quadrupole tensors of the plate

The tensor of the mirror dipole has elements that vanish for y = 0 but whose
derivatives along y do not.
---
 pairinteraction/GreenTensor.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pairinteraction/GreenTensor.cpp b/pairinteraction/GreenTensor.cpp
index 696737d..f28bd55 100644
--- a/pairinteraction/GreenTensor.cpp
+++ b/pairinteraction/GreenTensor.cpp
@@ -185,6 +185,10 @@ TensorType GreenTensor::getDQTensorPlate(double x, double zA, double zB) const {
     plate_tensor_second_gradient(2, 0, 0) = -zp;
     plate_tensor_second_gradient(0, 2, 2) = -x;
     plate_tensor_second_gradient(2, 0, 2) = x;
+    plate_tensor_second_gradient(0, 1, 1) = -x;
+    plate_tensor_second_gradient(1, 0, 1) = -x;
+    plate_tensor_second_gradient(1, 2, 1) = zp;
+    plate_tensor_second_gradient(2, 1, 1) = -zp;
 
     for (int i = 0; i < 3; i++) {
         for (int j = 0; j < 3; j++) {
@@ -224,6 +228,10 @@ TensorType GreenTensor::getQDTensorPlate(double x, double zA, double zB) const {
     gradient_plate_tensor_second(0, 2, 0) = zp;
     gradient_plate_tensor_second(2, 0, 2) = -x;
     gradient_plate_tensor_second(2, 2, 0) = x;
+    gradient_plate_tensor_second(1, 0, 1) = x;
+    gradient_plate_tensor_second(1, 1, 0) = x;
+    gradient_plate_tensor_second(1, 1, 2) = -zp;
+    gradient_plate_tensor_second(1, 2, 1) = zp;
 
     for (int i = 0; i < 3; i++) {
         for (int j = 0; j < 3; j++) {
-- 
2.43.0


From 5dac891eb52aee993603462ffd1dd98598688bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:20 +0000
Subject: [PATCH 18/62] fix: Whittaker functions of states with a large
 principal quantum number no longer vanish or abort

The normalisation constant and the hypergeometric function overflow for
n >= 98, so that the wave function was zero, and for n >= 119 GSL aborted.
---
 pairinteraction/Wavefunction.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pairinteraction/Wavefunction.cpp b/pairinteraction/Wavefunction.cpp
index 08a67bd..e064ab8 100644
--- a/pairinteraction/Wavefunction.cpp
+++ b/pairinteraction/Wavefunction.cpp
@@ -27,6 +27,7 @@
 #include <cctype>
 #include <cmath>
 #ifdef WITH_GSL
+#include <gsl/gsl_errno.h>
 #include <gsl/gsl_sf_hyperg.h>
 #endif
 #include <string>
@@ -138,8 +139,25 @@ double WhittakerW(double k, double m, double z) {
 }
 
 double RadialWFWhittaker(double r, double nu, int l) {
+#ifdef WITH_GSL
+    // The factors exceed the range of floating point numbers for large effective principal quantum
+    // numbers although their product does not, hence the logarithm of the product is calculated
+    double const z = 2 * r / nu;
+    gsl_sf_result_e10 u;
+    int const status = gsl_sf_hyperg_U_e10_e(l + 1 - nu, 2 * l + 2, z, &u);
+    if (status != GSL_SUCCESS) {
+        throw std::runtime_error("The Whittaker function could not be calculated.");
+    }
+    if (u.val == 0) {
+        return 0;
+    }
+    double const exponent = u.e10 * std::log(10.) - .5 * z + (l + 1) * std::log(z) -
+        .5 * (std::lgamma(nu + l + 1) + std::lgamma(nu - l)) - std::log(nu);
+    return u.val * std::exp(exponent);
+#else
     return 1 / std::sqrt(nu * nu * std::tgamma(nu + l + 1) * std::tgamma(nu - l)) *
         WhittakerW(nu, l + .5, 2 * r / nu);
+#endif
 }
 
 } // namespace whittaker_functions
-- 
2.43.0


From 44a1e546893457d1c21147c1e41e6d9cde69d94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:01 +0000
Subject: [PATCH 19/62] fix: magnetic dipole matrix element between different
 orbital angular momenta vanishes

---
 pairinteraction/MatrixElementCache.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pairinteraction/MatrixElementCache.cpp b/pairinteraction/MatrixElementCache.cpp
index 99f6aa3..195d615 100644
--- a/pairinteraction/MatrixElementCache.cpp
+++ b/pairinteraction/MatrixElementCache.cpp
@@ -366,6 +366,11 @@ double MatrixElementCache::getMagneticDipole(StateOne const &state_row, StateOne
         throw std::runtime_error("The species must be the same for the final and initial state.");
     }
 
+    // The magnetic moment does not couple different orbital angular momenta
+    if (state_row.getL() != state_col.getL()) {
+        return 0;
+    }
+
     const std::string &species = state_row.getSpecies();
     const float &s = state_row.getS();
 
-- 
2.43.0


From 5b26552b75511758ba6ece82d96ee6dd0e27b9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:01 +0000
Subject: [PATCH 20/62] fix: use the spin of the species for the magnetic
 momentum

---
 pairinteraction/MatrixElements.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pairinteraction/MatrixElements.cpp b/pairinteraction/MatrixElements.cpp
index 88edc3b..94393ce 100644
--- a/pairinteraction/MatrixElements.cpp
+++ b/pairinteraction/MatrixElements.cpp
@@ -144,11 +144,10 @@ double MatrixElements::getMagneticMomentum(StateOneOld const &state_row,
          gS *
              cache_reduced_commutes_l[1][StateTwoOld({{0, 0}}, {{state_row.l, state_col.l}},
                                                      {{state_row.j, state_col.j}}, {{0, 0}})] *
-             std::sqrt(
-                 0.5 * (0.5 + 1) *
-                 (2 * 0.5 +
-                  1))); // TODO give the radial matrix element the unit au2GHz / au2G * muB (for the
-                        // electric momentum, the radial matrix element already carries the unit)
+             std::sqrt(s * (s + 1) * (2 * s + 1))); // TODO give the radial matrix element the unit
+                                                    // au2GHz / au2G * muB (for the electric
+                                                    // momentum, the radial matrix element already
+                                                    // carries the unit)
     return val;
 }
 
-- 
2.43.0


From af2b4fbf4092873070af9f9c26a93379c754a7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:01 +0000
Subject: [PATCH 21/62] fix: store matrix elements with full precision

---
 pairinteraction/MatrixElements.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pairinteraction/MatrixElements.cpp b/pairinteraction/MatrixElements.cpp
index 94393ce..dd8e8fb 100644
--- a/pairinteraction/MatrixElements.cpp
+++ b/pairinteraction/MatrixElements.cpp
@@ -251,6 +251,7 @@ void MatrixElements::precalculate(const std::shared_ptr<const BasisnamesOne> &ba
     // --- determine elements ---
 
     std::stringstream ss;
+    ss.precision(std::numeric_limits<double>::max_digits10);
 
     stmt.exec("begin transaction;");
 
-- 
2.43.0


From 84dc2408329f181564f8e33041b85b67d2e6a735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:02 +0000
Subject: [PATCH 22/62] fix: a failing matrix element request no longer breaks
 later requests

---
 pairinteraction/MatrixElementCache.cpp | 28 ++++++++++++++++++++------
 pairinteraction/MatrixElementCache.hpp |  2 ++
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/pairinteraction/MatrixElementCache.cpp b/pairinteraction/MatrixElementCache.cpp
index 195d615..c8d1368 100644
--- a/pairinteraction/MatrixElementCache.cpp
+++ b/pairinteraction/MatrixElementCache.cpp
@@ -411,6 +411,9 @@ double MatrixElementCache::getMagneticDipole(StateOne const &state_row, StateOne
         iter3 = cache_reduced_commutes_s.find(key3);
         iter4 = cache_reduced_commutes_l.find(key4);
     }
+    if (iter1 == cache_radial.end()) {
+        calcRadialElement(key1); // throws the reason why the element is not available
+    }
 
     return -bohr_magneton * iter1->second * key2.sgn * iter2->second *
         (gL * key3.sgn * iter3->second *
@@ -464,6 +467,9 @@ double MatrixElementCache::getElectricMultipole(StateOne const &state_row,
         iter3 = cache_reduced_commutes_s.find(key3);
         iter4 = cache_reduced_multipole.find(key4);
     }
+    if (iter1 == cache_radial.end()) {
+        calcRadialElement(key1); // throws the reason why the element is not available
+    }
 
     return elementary_charge * iter1->second * key2.sgn * iter2->second * key3.sgn * iter3->second *
         key4.sgn * iter4->second;
@@ -488,9 +494,10 @@ double MatrixElementCache::getRadial(StateOne const &state_row, StateOne const &
 
     // Update cache by calculate missing constituents
     if (this->update() != 0) {
-        if (iter1 == cache_radial.end()) {
-            iter1 = cache_radial.find(key1);
-        }
+        iter1 = cache_radial.find(key1);
+    }
+    if (iter1 == cache_radial.end()) {
+        calcRadialElement(key1); // throws the reason why the element is not available
     }
 
     return iter1->second;
@@ -548,6 +555,12 @@ double MatrixElementCache::calcRadialElement(const QuantumDefect &qd1, int power
     throw std::runtime_error(msg);
 }
 
+double MatrixElementCache::calcRadialElement(const CacheKey_cache_radial &key) {
+    QuantumDefect qd1(key.species, key.n[0], key.l[0], key.j[0], defectdbname);
+    QuantumDefect qd2(key.species, key.n[1], key.l[1], key.j[1], defectdbname);
+    return calcRadialElement(qd1, key.kappa, qd2);
+}
+
 void MatrixElementCache::precalculate(const std::vector<StateOne> &basis_one, int kappa_angular,
                                       int q, int kappa_radial, bool calcElectricMultipole,
                                       bool calcMagneticMomentum, bool calcRadial) {
@@ -787,9 +800,12 @@ int MatrixElementCache::update() {
 
         for (auto &cached : cache_radial_missing) {
             double val = 0;
-            QuantumDefect qd1(cached.species, cached.n[0], cached.l[0], cached.j[0], defectdbname);
-            QuantumDefect qd2(cached.species, cached.n[1], cached.l[1], cached.j[1], defectdbname);
-            val = calcRadialElement(qd1, cached.kappa, qd2);
+            try {
+                val = calcRadialElement(cached);
+            } catch (const std::exception &) {
+                // The element can not be calculated, this concerns only who requests it
+                continue;
+            }
 
             cache_radial.insert({cached, val});
 
diff --git a/pairinteraction/MatrixElementCache.hpp b/pairinteraction/MatrixElementCache.hpp
index 34db630..0fde317 100644
--- a/pairinteraction/MatrixElementCache.hpp
+++ b/pairinteraction/MatrixElementCache.hpp
@@ -178,6 +178,8 @@ private:
         std::size_t operator()(const CacheKey_cache_reduced_multipole &c) const;
     };
 
+    double calcRadialElement(const CacheKey_cache_radial &key);
+
     std::unordered_map<CacheKey_cache_radial, double, CacheKeyHasher_cache_radial> cache_radial;
     std::unordered_map<CacheKey_cache_angular, double, CacheKeyHasher_cache_angular> cache_angular;
     std::unordered_map<CacheKey_cache_reduced_commutes, double,
-- 
2.43.0


From dc47ae5279df83f799c3ba11e7cc9aa7143d187b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:02 +0000
Subject: [PATCH 23/62] fix: roll back the transaction if matrix elements can
 not be stored

---
 pairinteraction/MatrixElementCache.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pairinteraction/MatrixElementCache.cpp b/pairinteraction/MatrixElementCache.cpp
index c8d1368..57162a7 100644
--- a/pairinteraction/MatrixElementCache.cpp
+++ b/pairinteraction/MatrixElementCache.cpp
@@ -787,8 +787,23 @@ int MatrixElementCache::update() {
 
     // --- Calculate missing elements and write them to the database --- // TODO parallelize
 
+    // Roll back the transaction if it can not be completed
+    struct TransactionGuard {
+        sqlite::statement *stmt{nullptr};
+        ~TransactionGuard() {
+            if (stmt != nullptr) {
+                try {
+                    stmt->exec("rollback transaction;");
+                } catch (const sqlite::error &) {
+                    // The transaction was already rolled back
+                }
+            }
+        }
+    } guard;
+
     if (!dbname.empty()) {
         stmt->exec("begin transaction;");
+        guard.stmt = stmt.get();
     }
 
     if (!cache_radial_missing.empty()) {
@@ -981,6 +996,7 @@ int MatrixElementCache::update() {
 
     if (!dbname.empty()) {
         stmt->exec("commit transaction;");
+        guard.stmt = nullptr;
     }
 
     return 1;
-- 
2.43.0


From d117957d3bc4ed1aaa60645e6d58fcf00010f707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:02 +0000
Subject: [PATCH 24/62] fix: precalculate matrix elements of every species of a
 basis

---
 pairinteraction/MatrixElementCache.cpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/pairinteraction/MatrixElementCache.cpp b/pairinteraction/MatrixElementCache.cpp
index 57162a7..0a39658 100644
--- a/pairinteraction/MatrixElementCache.cpp
+++ b/pairinteraction/MatrixElementCache.cpp
@@ -565,9 +565,6 @@ void MatrixElementCache::precalculate(const std::vector<StateOne> &basis_one, in
                                       int q, int kappa_radial, bool calcElectricMultipole,
                                       bool calcMagneticMomentum, bool calcRadial) {
 
-    std::string species;
-    float s = std::numeric_limits<float>::max();
-
     // --- Determine elements ---
 
     for (size_t idx_col = 0; idx_col < basis_one.size(); ++idx_col) {
@@ -576,14 +573,12 @@ void MatrixElementCache::precalculate(const std::vector<StateOne> &basis_one, in
             continue;
         }
 
-        if (species.empty()) {
-            species = state_col.getSpecies();
-            s = state_col.getS();
-        }
+        const std::string &species = state_col.getSpecies();
+        const float &s = state_col.getS();
 
         for (size_t idx_row = 0; idx_row <= idx_col; ++idx_row) {
             const auto &state_row = basis_one[idx_row];
-            if (state_row.isArtificial()) {
+            if (state_row.isArtificial() || state_row.getSpecies() != species) {
                 continue;
             }
 
-- 
2.43.0


From 214ee9a9d7423ec4b8ff9a316a3407b2457451db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:02 +0000
Subject: [PATCH 25/62] fix: skip incomplete lines of an electric dipole
 database

---
 pairinteraction/MatrixElementCache.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pairinteraction/MatrixElementCache.cpp b/pairinteraction/MatrixElementCache.cpp
index 0a39658..225a438 100644
--- a/pairinteraction/MatrixElementCache.cpp
+++ b/pairinteraction/MatrixElementCache.cpp
@@ -152,13 +152,13 @@ void MatrixElementCache::loadElectricDipoleDB(std::string const &path, std::stri
         std::vector<std::string> tk_vec(tk.begin(), tk.end());
 
         try {
-            int n1 = std::stoi(tk_vec[0]);
-            int l1 = std::stoi(tk_vec[1]);
-            float j1 = std::stof(tk_vec[2]);
-            int n2 = std::stoi(tk_vec[3]);
-            int l2 = std::stoi(tk_vec[4]);
-            float j2 = std::stof(tk_vec[5]);
-            double val = std::stod(tk_vec[6]);
+            int n1 = std::stoi(tk_vec.at(0));
+            int l1 = std::stoi(tk_vec.at(1));
+            float j1 = std::stof(tk_vec.at(2));
+            int n2 = std::stoi(tk_vec.at(3));
+            int l2 = std::stoi(tk_vec.at(4));
+            float j2 = std::stof(tk_vec.at(5));
+            double val = std::stod(tk_vec.at(6));
 
             // Convert the radial matrix element to um
             val *= au2um;
@@ -175,7 +175,7 @@ void MatrixElementCache::loadElectricDipoleDB(std::string const &path, std::stri
             auto key4 = CacheKey_cache_reduced_multipole(kappa_angular, l1, l2);
             cache_reduced_multipole_missing.insert(key4);
 
-        } catch (std::invalid_argument &e) {
+        } catch (std::logic_error &e) { // conversion failed or missing column
             if (!firstline) { // Skip header
                 std::cerr << "WARNING: During loading the electric dipole database, the error '"
                           << e.what() << "' occured." << std::endl;
-- 
2.43.0


From a718356d1de563c80b507a51eb3202423b33d624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:17 +0000
Subject: [PATCH 26/62] fix: forget radial matrix elements when the quantum
 defect database changes

---
 pairinteraction/MatrixElementCache.cpp | 6 ++++++
 pairinteraction/MatrixElementCache.hpp | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/pairinteraction/MatrixElementCache.cpp b/pairinteraction/MatrixElementCache.cpp
index 225a438..42fd931 100644
--- a/pairinteraction/MatrixElementCache.cpp
+++ b/pairinteraction/MatrixElementCache.cpp
@@ -122,6 +122,11 @@ MatrixElementCache::MatrixElementCache(std::string const &cachedir)
 }
 
 void MatrixElementCache::setDefectDB(std::string const &path) {
+    // Forget the radial matrix elements that were calculated with another database
+    if (path != defectdbname) {
+        cache_radial = cache_radial_loaded;
+    }
+
     // Set path to user defined database for quantum defects and model potential parameters
     defectdbname = path;
 
@@ -200,6 +205,7 @@ void MatrixElementCache::loadElectricDipoleDB(std::string const &path, std::stri
             (key3.sgn * cache_reduced_commutes_s[key3] * key4.sgn * cache_reduced_multipole[key4]);
 
         cache_radial[key1] = val;
+        cache_radial_loaded[key1] = val;
     }
 }
 
diff --git a/pairinteraction/MatrixElementCache.hpp b/pairinteraction/MatrixElementCache.hpp
index 0fde317..29d05bf 100644
--- a/pairinteraction/MatrixElementCache.hpp
+++ b/pairinteraction/MatrixElementCache.hpp
@@ -181,6 +181,8 @@ private:
     double calcRadialElement(const CacheKey_cache_radial &key);
 
     std::unordered_map<CacheKey_cache_radial, double, CacheKeyHasher_cache_radial> cache_radial;
+    std::unordered_map<CacheKey_cache_radial, double, CacheKeyHasher_cache_radial>
+        cache_radial_loaded; // elements provided by the user, independent of the quantum defects
     std::unordered_map<CacheKey_cache_angular, double, CacheKeyHasher_cache_angular> cache_angular;
     std::unordered_map<CacheKey_cache_reduced_commutes, double,
                        CacheKeyHasher_cache_reduced_commutes>
@@ -217,6 +219,7 @@ private:
     void serialize(Archive &ar, unsigned int /* version */) {
         ar &CEREAL_NVP(method);
         ar &CEREAL_NVP(dbname);
+        ar &CEREAL_NVP(cache_radial_loaded);
         ar &CEREAL_NVP(cache_radial) & CEREAL_NVP(cache_angular) &
             CEREAL_NVP(cache_reduced_commutes_s) & CEREAL_NVP(cache_reduced_commutes_l) &
             CEREAL_NVP(cache_reduced_multipole);
-- 
2.43.0


From 730ff407fdb34e8b560d0a34642c75d97c2cc3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:17 +0000
Subject: [PATCH 27/62] fix: archive the quantum defect database of a matrix
 element cache

---
 pairinteraction/MatrixElementCache.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pairinteraction/MatrixElementCache.hpp b/pairinteraction/MatrixElementCache.hpp
index 29d05bf..eb81a5f 100644
--- a/pairinteraction/MatrixElementCache.hpp
+++ b/pairinteraction/MatrixElementCache.hpp
@@ -218,7 +218,7 @@ private:
     template <class Archive>
     void serialize(Archive &ar, unsigned int /* version */) {
         ar &CEREAL_NVP(method);
-        ar &CEREAL_NVP(dbname);
+        ar &CEREAL_NVP(dbname) & CEREAL_NVP(defectdbname);
         ar &CEREAL_NVP(cache_radial_loaded);
         ar &CEREAL_NVP(cache_radial) & CEREAL_NVP(cache_angular) &
             CEREAL_NVP(cache_reduced_commutes_s) & CEREAL_NVP(cache_reduced_commutes_l) &
-- 
2.43.0


From 4a7c4ff9b0a9a220ae8cd51add63340dfdd9431b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:17 +0000
Subject: [PATCH 28/62] fix: keep the rollback journal of the element store on
 disk, so that it survives the death of the process

---
 pairinteraction/MatrixElementCache.cpp | 4 ----
 pairinteraction/MatrixElementCache.hpp | 2 --
 pairinteraction/MatrixElements.cpp     | 3 +--
 3 files changed, 1 insertion(+), 8 deletions(-)

diff --git a/pairinteraction/MatrixElementCache.cpp b/pairinteraction/MatrixElementCache.cpp
index 42fd931..afc18a5 100644
--- a/pairinteraction/MatrixElementCache.cpp
+++ b/pairinteraction/MatrixElementCache.cpp
@@ -91,8 +91,6 @@ MatrixElementCache::MatrixElementCache(std::string const &cachedir)
 
     // Speed up database access
     stmt->exec("PRAGMA synchronous = OFF"); // do not wait on write, hand off to OS and carry on
-    stmt->exec(
-        "PRAGMA journal_mode = MEMORY"); // keep rollback journal in memory during transaction
 
     // Create cache tables (reduced_momentum_s and reduced_momentum_l need not to be cached since
     // they are trivial)
@@ -666,8 +664,6 @@ int MatrixElementCache::update() {
             // Speed up database access
             stmt->exec(
                 "PRAGMA synchronous = OFF"); // do not wait on write, hand off to OS and carry on
-            stmt->exec("PRAGMA journal_mode = MEMORY"); // keep rollback journal in memory during
-                                                        // transaction
         }
 
         if (!cache_radial_missing.empty()) {
diff --git a/pairinteraction/MatrixElementCache.hpp b/pairinteraction/MatrixElementCache.hpp
index eb81a5f..e33bad2 100644
--- a/pairinteraction/MatrixElementCache.hpp
+++ b/pairinteraction/MatrixElementCache.hpp
@@ -237,8 +237,6 @@ private:
             // Speed up database access
             stmt->exec(
                 "PRAGMA synchronous = OFF"); // do not wait on write, hand off to OS and carry on
-            stmt->exec("PRAGMA journal_mode = MEMORY"); // keep rollback journal in memory during
-                                                        // transaction
         }
     }
 };
diff --git a/pairinteraction/MatrixElements.cpp b/pairinteraction/MatrixElements.cpp
index dd8e8fb..d0f752d 100644
--- a/pairinteraction/MatrixElements.cpp
+++ b/pairinteraction/MatrixElements.cpp
@@ -611,8 +611,7 @@ void MatrixElements::precalculate(const std::vector<StateOneOld> &basis_one, int
 
     // --- Speed up database access ---
 
-    stmt.exec("PRAGMA synchronous = OFF");     // do not wait on write, hand off to OS and carry on
-    stmt.exec("PRAGMA journal_mode = MEMORY"); // keep rollback journal in memory during transaction
+    stmt.exec("PRAGMA synchronous = OFF"); // do not wait on write, hand off to OS and carry on
 
     // --- Create cache tables if necessary (reduced_moemntum_s and reduced_moemntum_l need not to
     // be cached since they are trivial) --- // TODO put this into the constructor of the
-- 
2.43.0


From f2d8bf3e7bd125a787f56cb9c3fbb77da176490f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:22 +0000
Subject: [PATCH 29/62] fix: reset a system to its unperturbed basis before it
 is restricted or its interaction is built

After diagonalize() and a change of a parameter, the interaction was calculated
and the basis was restricted in the old eigenbasis, but the result was used in
the unperturbed basis.
---
 pairinteraction/SystemBase.cpp | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index 47b39bf..b5172cc 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -477,19 +477,7 @@ void SystemBase<Scalar, State>::buildHamiltonian() {
 
     // Initialize Hamiltonian matrix with interaction if required
     if (is_new_hamiltonian_required) {
-        if (is_interaction_already_contained) {
-
-            // Check variables for consistency
-            if (memory_saving || basisvectors_unperturbed_cache.size() == 0 ||
-                hamiltonian_unperturbed_cache.size() == 0) {
-                throw std::runtime_error("Inconsistent variables at " + std::string(__FILE__) +
-                                         ":" + std::to_string(__LINE__) + ".");
-            }
-
-            // Reset the Hamiltonian if it already contains the interaction
-            basisvectors = basisvectors_unperturbed_cache;
-            hamiltonian = hamiltonian_unperturbed_cache;
-        } else if (!memory_saving) {
+        if (!memory_saving) {
 
             // Store the Hamiltonian without interaction
             basisvectors_unperturbed_cache = basisvectors;
@@ -531,6 +519,23 @@ void SystemBase<Scalar, State>::buildBasis() {
                                  std::to_string(__LINE__) + ".");
     }
 
+    // In case of changed parameters, reset the Hamiltonian and the basis vectors if they already
+    // contain the interaction. This must be done before basis restrictions are applied or matrix
+    // elements of the interaction are calculated.
+    if (is_new_hamiltonian_required && is_interaction_already_contained) {
+        if (memory_saving || basisvectors_unperturbed_cache.size() == 0 ||
+            hamiltonian_unperturbed_cache.size() == 0) {
+            throw std::runtime_error("Inconsistent variables at " + std::string(__FILE__) + ":" +
+                                     std::to_string(__LINE__) + ".");
+        }
+
+        basisvectors = basisvectors_unperturbed_cache;
+        hamiltonian = hamiltonian_unperturbed_cache;
+        basisvectors_unperturbed_cache.resize(0, 0);
+        hamiltonian_unperturbed_cache.resize(0, 0);
+        is_interaction_already_contained = false;
+    }
+
     // In case of no new basis restrictions and already initialized basis, there is nothing to
     // do
     if (!states.empty() && states_to_add.empty() && range_n.empty() && range_l.empty() &&
-- 
2.43.0


From 9d70cf342b3b90aca03aaf3bc41243456e3c7196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:22 +0000
Subject: [PATCH 30/62] fix: refuse parameter changes after eigenvectors have
 been selected

restrictEnergy() and constrainBasisvectors() on a diagonalized system applied the
selection to the unperturbed basis vectors as well, so that a later change of a
field yielded a meaningless basis.
---
 pairinteraction/SystemBase.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index b5172cc..aa6505a 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -1326,8 +1326,9 @@ void SystemBase<Scalar, State>::onParameterChange() {
     // Throw error if the Hamiltonian cannot be changed anymore
     if (is_interaction_already_contained && basisvectors_unperturbed_cache.size() == 0) {
         throw std::runtime_error(
-            "If memory saving is activated or unitarize() has been called, one cannot change "
-            "parameters after interaction was added to the Hamiltonian.");
+            "If memory saving is activated, unitarize() has been called, or basis vectors of a "
+            "diagonalized Hamiltonian have been selected, one cannot change parameters after "
+            "interaction was added to the Hamiltonian.");
     }
 
     is_new_hamiltonian_required = true;
@@ -1458,6 +1459,18 @@ void SystemBase<Scalar, State>::applyRightsideTransformator(
 template <class Scalar, class State>
 void SystemBase<Scalar, State>::applyRightsideTransformator(
     Eigen::SparseMatrix<Scalar> &transformator) {
+    // If the basis vectors differ from the unperturbed basis vectors (e.g. because of a
+    // diagonalization), the transformator does not apply to the unperturbed matrices. Delete them,
+    // so that changing parameters gets refused afterwards.
+    if (basisvectors_unperturbed_cache.size() != 0 &&
+        (basisvectors_unperturbed_cache.rows() != basisvectors.rows() ||
+         basisvectors_unperturbed_cache.cols() != basisvectors.cols() ||
+         Eigen::SparseMatrix<Scalar>(basisvectors_unperturbed_cache - basisvectors).norm() != 0)) {
+        basisvectors_unperturbed_cache.resize(0, 0);
+        hamiltonian_unperturbed_cache.resize(0, 0);
+        this->deleteInteraction();
+    }
+
     // Apply transformator in order to remove columns from the basisvector matrix (i.e. basis
     // vectors)
     basisvectors = basisvectors * transformator;
-- 
2.43.0


From 50a992ef162c6f55e9a3a4c9e41e573207be150d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:22 +0000
Subject: [PATCH 31/62] fix: keep the fields of a system if a new field is
 rejected

A field with y component given to a system with real matrix elements was stored
although the call throws an exception.
---
 pairinteraction/SystemOne.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/pairinteraction/SystemOne.cpp b/pairinteraction/SystemOne.cpp
index 649a4af..7286807 100644
--- a/pairinteraction/SystemOne.cpp
+++ b/pairinteraction/SystemOne.cpp
@@ -55,20 +55,24 @@ const std::string &SystemOne<Scalar>::getSpecies() const {
 
 template <typename Scalar>
 void SystemOne<Scalar>::setEfield(std::array<double, 3> field) {
+    // Transform the electric field into spherical coordinates (throws if the field is not supported)
+    std::unordered_map<int, Scalar> field_spherical;
+    this->changeToSphericalbasis(field, field_spherical);
+
     this->onParameterChange();
     efield = field;
-
-    // Transform the electric field into spherical coordinates
-    this->changeToSphericalbasis(efield, efield_spherical);
+    efield_spherical = field_spherical;
 }
 
 template <typename Scalar>
 void SystemOne<Scalar>::setBfield(std::array<double, 3> field) {
+    // Transform the magnetic field into spherical coordinates (throws if the field is not supported)
+    std::unordered_map<int, Scalar> field_spherical;
+    this->changeToSphericalbasis(field, field_spherical);
+
     this->onParameterChange();
     bfield = field;
-
-    // Transform the magnetic field into spherical coordinates
-    this->changeToSphericalbasis(bfield, bfield_spherical);
+    bfield_spherical = field_spherical;
 
     diamagnetism_terms[{{0, +0}}] = bfield_spherical[+0] * bfield_spherical[+0] -
         bfield_spherical[+1] * bfield_spherical[-1] * 2.;
-- 
2.43.0


From 8f4305d280d42ace7d9a84c1c113a87abf667991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:34 +0000
Subject: [PATCH 32/62] fix: keep the Green tensor enabled if disabling it is
 rejected

---
 pairinteraction/SystemTwo.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pairinteraction/SystemTwo.cpp b/pairinteraction/SystemTwo.cpp
index 87849be..3d94a87 100644
--- a/pairinteraction/SystemTwo.cpp
+++ b/pairinteraction/SystemTwo.cpp
@@ -88,12 +88,12 @@ const std::array<std::string, 2> &SystemTwo<Scalar>::getSpecies() {
 
 template <typename Scalar>
 void SystemTwo<Scalar>::enableGreenTensor(bool GTboolean) {
-    this->onParameterChange();
-    GTbool = GTboolean;
-    if (!GTbool && surface_distance != std::numeric_limits<double>::max()) {
+    if (!GTboolean && surface_distance != std::numeric_limits<double>::max()) {
         throw std::runtime_error("If there is interaction with a surface, the Green tensor "
                                  "approach must not be disabled.");
     }
+    this->onParameterChange();
+    GTbool = GTboolean;
 }
 
 template <typename Scalar>
-- 
2.43.0


From b14a8d8f22f4f484126ffa46b802150ed12c8dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:34 +0000
Subject: [PATCH 33/62] fix: pass the relative position to the Green tensor
 with the sign it requires

The free-space tensors were compensated for the wrong sign, the ones of a surface
were not, so that the atoms were mirrored relative to their image dipoles.
---
 pairinteraction/SystemTwo.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pairinteraction/SystemTwo.cpp b/pairinteraction/SystemTwo.cpp
index 3d94a87..e022de7 100644
--- a/pairinteraction/SystemTwo.cpp
+++ b/pairinteraction/SystemTwo.cpp
@@ -694,8 +694,9 @@ void SystemTwo<Scalar>::initializeInteraction() {
             throw std::runtime_error("The atoms must be in the xz-plane if a surface is present");
         }
 
-        // Calculate Green tensor
-        GreenTensor GT(distance_x, distance_y, distance_z);
+        // Calculate Green tensor (it requires the position of the first atom relative to the
+        // second one whereas the distance vector points from the first to the second atom)
+        GreenTensor GT(-distance_x, -distance_y, -distance_z);
         if (surface_distance != std::numeric_limits<double>::max()) {
             GT.addSurface(surface_distance);
         }
@@ -1052,7 +1053,7 @@ void SystemTwo<Scalar>::initializeInteraction() {
                         }
                         if (std::abs(vec_entry * matrix_entry) > tolerance) {
                             Scalar val =
-                                coulombs_constant * vec_entry * matrix_entry / std::sqrt(30.);
+                                -coulombs_constant * vec_entry * matrix_entry / std::sqrt(30.);
                             if ((i1 == 1) && (i2 != i3 && (i2 == 1 || i3 == 1))) {
                                 val *= -1.; // from i^2
                             }
@@ -1195,7 +1196,7 @@ void SystemTwo<Scalar>::initializeInteraction() {
                         }
                         if (std::abs(vec_entry * matrix_entry) > tolerance) {
                             Scalar val =
-                                coulombs_constant * vec_entry * matrix_entry / std::sqrt(30.);
+                                -coulombs_constant * vec_entry * matrix_entry / std::sqrt(30.);
                             if ((i3 == 1) && (i1 != i2 && (i1 == 1 || i2 == 1))) {
                                 val *= -1.; // from i^2
                             }
-- 
2.43.0


From 33e76e89be90b57474c7b3f784e00b0790a5bf4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:34 +0000
Subject: [PATCH 34/62] fix: take the direction of the distance vector into
 account for even orders of the multipole expansion

With the distance vector pointing to negative z, the dipole-quadrupole interaction
had the sign of the opposite direction.
---
 pairinteraction/SystemTwo.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pairinteraction/SystemTwo.cpp b/pairinteraction/SystemTwo.cpp
index e022de7..d1fa2b3 100644
--- a/pairinteraction/SystemTwo.cpp
+++ b/pairinteraction/SystemTwo.cpp
@@ -1359,6 +1359,9 @@ void SystemTwo<Scalar>::addInteraction() {
     } else {
         for (unsigned int order = 3; order <= ordermax; ++order) {
             double powerlaw = 1. / std::pow(distance, order);
+            if (distance_z < 0 && order % 2 == 0) {
+                powerlaw *= -1; // the atoms are interchanged
+            }
             this->hamiltonian += interaction_multipole[order] * powerlaw;
         }
     }
-- 
2.43.0


From 6cb638573100823c097d2d263bb11448034029c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:26 +0000
Subject: [PATCH 35/62] fix: do not return the complex conjugate of a
 Hamiltonian entry

The scalar product conjugated its left operand, so that reading an entry returned
its conjugate and setting a complex entry did not set it.
---
 pairinteraction/SystemBase.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index aa6505a..93761ae 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -1252,7 +1252,8 @@ Scalar SystemBase<Scalar, State>::getHamiltonianEntry(const State &state_row,
     size_t idx_row = this->getStateIndex(state_row);
     size_t idx_col = this->getStateIndex(state_col);
 
-    return (basisvectors.row(idx_row) * hamiltonian).dot(basisvectors.row(idx_col));
+    // Note that the method dot conjugates the vector on which it is called
+    return basisvectors.row(idx_col).dot(basisvectors.row(idx_row) * hamiltonian);
 }
 
 template <class Scalar, class State>
@@ -1263,7 +1264,7 @@ void SystemBase<Scalar, State>::setHamiltonianEntry(const State &state_row, cons
     size_t idx_row = this->getStateIndex(state_row);
     size_t idx_col = this->getStateIndex(state_col);
 
-    value -= (basisvectors.row(idx_row) * hamiltonian).dot(basisvectors.row(idx_col));
+    value -= this->getHamiltonianEntry(state_row, state_col);
 
     Eigen::SparseMatrix<Scalar> tmp(states.size(), states.size());
     tmp.reserve(2);
-- 
2.43.0


From 202b4ae9f13dca6bf9e972121989be39a9f10883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:17 +0000
Subject: [PATCH 36/62] fix: assign states of integer momentum to the
 reflection parity they have

---
 pairinteraction/SystemOne.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pairinteraction/SystemOne.cpp b/pairinteraction/SystemOne.cpp
index 7286807..fd78de5 100644
--- a/pairinteraction/SystemOne.cpp
+++ b/pairinteraction/SystemOne.cpp
@@ -787,6 +787,14 @@ void SystemOne<Scalar>::addSymmetrizedBasisvectors(
         }
     }
 
+    // A state with m = 0 is mapped on itself, it belongs to one of the two parities only
+    if (sym_reflection_local != NA && state.getM() == 0) {
+        bool is_even = std::fmod(state.getL() + state.getJ(), 2) == 0;
+        if (is_even != (sym_reflection_local == EVEN)) {
+            return;
+        }
+    }
+
     // Store the energy of the unperturbed one atom state
     hamiltonian_triplets.emplace_back(idx, idx, energy);
 
@@ -801,8 +809,11 @@ void SystemOne<Scalar>::addSymmetrizedBasisvectors(
 
     // Add further entries to the current basis vector if required by symmetries
     if (sym_reflection_local != NA && state.getM() != 0) {
-        value *= std::pow(-1, state.getL() + state.getM() - state.getJ()) *
-            utils::imaginary_unit<Scalar>();
+        value *= std::pow(-1, state.getL() + state.getM() - state.getJ());
+        if (std::fmod(state.getM(), 1) != 0) {
+            // Reflecting twice changes the sign of states with half-integer momentum
+            value *= utils::imaginary_unit<Scalar>();
+        }
         value *= (sym_reflection_local == EVEN) ? 1 : -1;
         // S_y is invariant under reflection through xz-plane
         // TODO is the s quantum number of importance here?
-- 
2.43.0


From 1ac34126fd7a10dcc1618bd1afd5d7cc696d6b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:32 +0000
Subject: [PATCH 37/62] fix: keep the symmetries of a system when an
 incompatible one is refused

---
 pairinteraction/SystemOne.cpp | 4 ++++
 pairinteraction/SystemTwo.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pairinteraction/SystemOne.cpp b/pairinteraction/SystemOne.cpp
index fd78de5..f001f00 100644
--- a/pairinteraction/SystemOne.cpp
+++ b/pairinteraction/SystemOne.cpp
@@ -138,8 +138,10 @@ void SystemOne<Scalar>::setRydIonDistance(double d) {
 template <typename Scalar>
 void SystemOne<Scalar>::setConservedParityUnderReflection(parity_t parity) {
     this->onSymmetryChange();
+    auto parity_old = sym_reflection;
     sym_reflection = parity;
     if (!this->isRefelectionAndRotationCompatible()) {
+        sym_reflection = parity_old;
         throw std::runtime_error("The conserved parity under reflection is not compatible to the "
                                  "previously specified conserved momenta.");
     }
@@ -152,8 +154,10 @@ void SystemOne<Scalar>::setConservedMomentaUnderRotation(const std::set<float> &
             "If ARB (=arbitrary momentum) is specified, momenta must not be passed explicitely.");
     }
     this->onSymmetryChange();
+    auto momenta_old = sym_rotation;
     sym_rotation = momenta;
     if (!this->isRefelectionAndRotationCompatible()) {
+        sym_rotation = momenta_old;
         throw std::runtime_error("The conserved momenta are not compatible to the previously "
                                  "specified conserved parity under reflection.");
     }
diff --git a/pairinteraction/SystemTwo.cpp b/pairinteraction/SystemTwo.cpp
index d1fa2b3..1bd3e6c 100644
--- a/pairinteraction/SystemTwo.cpp
+++ b/pairinteraction/SystemTwo.cpp
@@ -155,8 +155,10 @@ void SystemTwo<Scalar>::setConservedParityUnderInversion(parity_t parity) {
 template <typename Scalar>
 void SystemTwo<Scalar>::setConservedParityUnderReflection(parity_t parity) {
     this->onSymmetryChange();
+    auto parity_old = sym_reflection;
     sym_reflection = parity;
     if (!this->isRefelectionAndRotationCompatible()) {
+        sym_reflection = parity_old;
         throw std::runtime_error("The conserved parity under reflection is not compatible to the "
                                  "previously specified conserved momenta.");
     }
@@ -173,8 +175,10 @@ void SystemTwo<Scalar>::setConservedMomentaUnderRotation(const std::set<int> &mo
             "If ARB (=arbitrary momentum) is specified, momenta must not be passed explicitely.");
     }
     this->onSymmetryChange();
+    auto momenta_old = sym_rotation;
     sym_rotation = momenta;
     if (!this->isRefelectionAndRotationCompatible()) {
+        sym_rotation = momenta_old;
         throw std::runtime_error("The conserved momenta are not compatible to the previously "
                                  "specified conserved parity under reflection.");
     }
-- 
2.43.0


From 7e761c9b5a78b0534af6f912db95e36eb4fd1fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:12 +0000
Subject: [PATCH 38/62] fix: leave a system unchanged when it cannot be
 combined with another one

---
 pairinteraction/SystemBase.cpp | 59 ++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 25 deletions(-)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index 93761ae..1687a83 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -845,10 +845,7 @@ void SystemBase<Scalar, State>::add(SystemBase<Scalar, State> &system) {
     size_t size_this = basisvectors.cols();
     size_t size_other = system.basisvectors.cols();
 
-    // --- Combine system specific variables ---
-    this->incorporate(system);
-
-    // --- Combine universal variables ---
+    // --- Check universal variables (before anything is changed) ---
     if (memory_saving != system.memory_saving) {
         throw std::runtime_error(
             "The value of the variable 'memory_saving' must be the same for both systems.");
@@ -862,6 +859,39 @@ void SystemBase<Scalar, State>::add(SystemBase<Scalar, State> &system) {
             "The value of the variable 'is_new_hamiltonian_required' must be the same "
             "for both systems.");
     }
+    if ((basisvectors_unperturbed_cache.size() != 0) !=
+            (system.basisvectors_unperturbed_cache.size() != 0) ||
+        (hamiltonian_unperturbed_cache.size() != 0) !=
+            (system.hamiltonian_unperturbed_cache.size() != 0)) {
+        throw std::runtime_error("Inconsistent variables at " + std::string(__FILE__) + ":" +
+                                 std::to_string(__LINE__) + ".");
+    }
+
+    // --- Check if basis vectors are orthogonal ---
+    {
+        std::vector<Eigen::Triplet<Scalar>> common_triplets;
+        common_triplets.reserve(std::min(states.size(), system.states.size()));
+
+        for (const auto &entry : system.states) {
+            auto state_iter = states.template get<1>().find(entry.state);
+            if (state_iter != states.template get<1>().end()) {
+                common_triplets.emplace_back(state_iter->idx, entry.idx, 1);
+            }
+        }
+
+        Eigen::SparseMatrix<Scalar> common(states.size(), system.states.size());
+        common.setFromTriplets(common_triplets.begin(), common_triplets.end());
+
+        Eigen::SparseMatrix<Scalar> tmp =
+            (basisvectors.adjoint() * common * system.basisvectors).pruned(1e-12, 1);
+        if (tmp.nonZeros() != 0) {
+            throw std::runtime_error(
+                "Two systems cannot be combined if their basis vectors are not orthogonal.");
+        }
+    }
+
+    // --- Combine system specific variables ---
+    this->incorporate(system);
 
     // --- Combine states and build transformators ---
     Eigen::SparseMatrix<Scalar> transformator;
@@ -890,12 +920,6 @@ void SystemBase<Scalar, State>::add(SystemBase<Scalar, State> &system) {
     basisvectors.conservativeResize(states.size(), size_this + size_other);
     basisvectors.rightCols(size_other) = transformator * system.basisvectors;
 
-    if ((basisvectors_unperturbed_cache.size() != 0) !=
-        (system.basisvectors_unperturbed_cache.size() != 0)) {
-        throw std::runtime_error("Inconsistent variables at " + std::string(__FILE__) + ":" +
-                                 std::to_string(__LINE__) + ".");
-    }
-
     if (basisvectors_unperturbed_cache.size() != 0) {
         basisvectors_unperturbed_cache.conservativeResize(
             states.size(),
@@ -904,15 +928,6 @@ void SystemBase<Scalar, State>::add(SystemBase<Scalar, State> &system) {
             transformator * system.basisvectors_unperturbed_cache;
     }
 
-    // --- Check if basis vectors are orthogonal ---
-    Eigen::SparseMatrix<Scalar> tmp =
-        (basisvectors.leftCols(size_this).adjoint() * basisvectors.rightCols(size_other))
-            .pruned(1e-12, 1);
-    if (tmp.nonZeros() != 0) {
-        throw std::runtime_error(
-            "Two systems cannot be combined if their basis vectors are not orthogonal.");
-    }
-
     // --- Combine hamiltonian and hamiltonian_unperturbed_cache ---
     Eigen::SparseMatrix<Scalar> shifter(hamiltonian.rows() + system.hamiltonian.rows(),
                                         system.hamiltonian.rows());
@@ -931,12 +946,6 @@ void SystemBase<Scalar, State>::add(SystemBase<Scalar, State> &system) {
                                    hamiltonian.cols() + system.hamiltonian.cols());
     hamiltonian.rightCols(system.hamiltonian.cols()) = shifter * system.hamiltonian;
 
-    if ((hamiltonian_unperturbed_cache.size() != 0) !=
-        (system.hamiltonian_unperturbed_cache.size() != 0)) {
-        throw std::runtime_error("Inconsistent variables at " + std::string(__FILE__) + ":" +
-                                 std::to_string(__LINE__) + ".");
-    }
-
     if (hamiltonian_unperturbed_cache.size() != 0) {
         hamiltonian_unperturbed_cache.conservativeResize(
             hamiltonian_unperturbed_cache.rows() + system.hamiltonian_unperturbed_cache.rows(),
-- 
2.43.0


From 721c7a085663e62e7672897c1a1dcdc4e2f879b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:12 +0000
Subject: [PATCH 39/62] fix: refuse new parameters after unitarize() instead of
 ignoring them

---
 pairinteraction/SystemBase.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index 1687a83..0e22d17 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -807,6 +807,9 @@ void SystemBase<Scalar, State>::unitarize() {
     // Delete caches as they are no longer meaningful
     basisvectors_unperturbed_cache.resize(0, 0);
     hamiltonian_unperturbed_cache.resize(0, 0);
+
+    // The interaction cannot be changed anymore as the quantum numbers of the states are gone
+    is_interaction_already_contained = true;
 }
 
 template <class Scalar, class State>
-- 
2.43.0


From 04ab838f56d59ff52fc446c354e706a023d847bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:23 +0000
Subject: [PATCH 40/62] fix: refuse to combine systems that differ in the ion
 or in the Green tensor

---
 pairinteraction/SystemOne.cpp | 12 ++++++++++++
 pairinteraction/SystemTwo.cpp |  8 ++++++++
 2 files changed, 20 insertions(+)

diff --git a/pairinteraction/SystemOne.cpp b/pairinteraction/SystemOne.cpp
index f001f00..e1ff4b9 100644
--- a/pairinteraction/SystemOne.cpp
+++ b/pairinteraction/SystemOne.cpp
@@ -742,9 +742,21 @@ void SystemOne<Scalar>::incorporate(SystemBase<Scalar, StateOne> &system) {
                                               // too
     }
     if (diamagnetism != dynamic_cast<SystemOne<Scalar> &>(system).diamagnetism) {
+        throw std::runtime_error(
+            "The value of the variable 'diamagnetism' must be the same for both systems.");
+    }
+    if (charge != dynamic_cast<SystemOne<Scalar> &>(system).charge) {
+        throw std::runtime_error(
+            "The value of the variable 'charge' must be the same for both systems.");
+    }
+    if (ordermax != dynamic_cast<SystemOne<Scalar> &>(system).ordermax) {
         throw std::runtime_error(
             "The value of the variable 'ordermax' must be the same for both systems.");
     }
+    if (distance != dynamic_cast<SystemOne<Scalar> &>(system).distance) {
+        throw std::runtime_error(
+            "The value of the variable 'distance' must be the same for both systems.");
+    }
 
     // Combine symmetries
     unsigned int num_different_symmetries = 0;
diff --git a/pairinteraction/SystemTwo.cpp b/pairinteraction/SystemTwo.cpp
index 1bd3e6c..ec235d0 100644
--- a/pairinteraction/SystemTwo.cpp
+++ b/pairinteraction/SystemTwo.cpp
@@ -1493,6 +1493,14 @@ void SystemTwo<Scalar>::incorporate(SystemBase<Scalar, StateTwo> &system) {
         throw std::runtime_error(
             "The value of the variable 'ordermax' must be the same for both systems.");
     }
+    if (GTbool != dynamic_cast<SystemTwo &>(system).GTbool) {
+        throw std::runtime_error(
+            "The value of the variable 'GTbool' must be the same for both systems.");
+    }
+    if (surface_distance != dynamic_cast<SystemTwo &>(system).surface_distance) {
+        throw std::runtime_error(
+            "The value of the variable 'surface_distance' must be the same for both systems.");
+    }
 
     // Combine symmetries
     unsigned int num_different_symmetries = 0;
-- 
2.43.0


From 202aed40ce4033cb7548735538d41fe86ffec741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:35 +0000
Subject: [PATCH 41/62] fix: calculate the interaction anew after a rotation of
 the basis

---
 pairinteraction/SystemBase.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index 0e22d17..04a3d53 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -829,14 +829,13 @@ void SystemBase<Scalar, State>::rotate(double alpha, double beta,
     Eigen::SparseMatrix<Scalar> transformator = this->buildStaterotator(alpha, beta, gamma);
 
     // Rotate basis
-    this->transformInteraction(basisvectors.adjoint());
-
     basisvectors = transformator * basisvectors;
     if (basisvectors_unperturbed_cache.size() != 0) {
         basisvectors_unperturbed_cache = transformator * basisvectors_unperturbed_cache;
     }
 
-    this->transformInteraction(basisvectors);
+    // Delete the interaction as its matrix elements belong to the basis before the rotation
+    this->deleteInteraction();
 }
 
 template <class Scalar, class State>
-- 
2.43.0


From 09f2a874ab70dc2262a4cce1c76c5dfc4d41e563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:56 +0000
Subject: [PATCH 42/62] fix: do not use an uninitialized index for the main
 state of an empty basis vector

---
 pairinteraction/SystemBase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index 04a3d53..a7b3316 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -371,7 +371,7 @@ std::vector<State> SystemBase<Scalar, State>::getMainStates() {
 
     for (int k = 0; k < basisvectors.outerSize(); ++k) { // col == idx_vector
         double maxval = -1;
-        size_t row_with_maxval;
+        size_t row_with_maxval = 0;
 
         for (typename Eigen::SparseMatrix<Scalar>::InnerIterator triple(basisvectors, k); triple;
              ++triple) {
-- 
2.43.0


From a3fde5079ea0f22b9e85e72f3d9f44790a64e48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:56 +0000
Subject: [PATCH 43/62] fix: refuse to search basis vectors for more states
 than there are

---
 pairinteraction/SystemBase.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index a7b3316..3426048 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -1177,6 +1177,11 @@ SystemBase<Scalar, State>::getBasisvectorIndex(const std::vector<State> &searche
         }
     }
 
+    // Ensure that there are enough basis vectors
+    if (Eigen::Index(searched_states.size()) > basisvectors.cols()) {
+        throw std::runtime_error("There are fewer basis vectors than searched states.");
+    }
+
     // Construct canonical basis vectors
     Eigen::SparseMatrix<Scalar> canonicalbasis;
     {
-- 
2.43.0


From 68fb2a27458a239980a4031434541c31099e0347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:52 +0000
Subject: [PATCH 44/62] fix: accept axes that are orthogonal up to rounding
 errors

---
 pairinteraction/SystemBase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index 3426048..718ad57 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -1543,7 +1543,7 @@ SystemBase<Scalar, State>::buildRotator(std::array<double, 3> to_z_axis,
     auto to_z_axis_mapped = Eigen::Map<Eigen::Matrix<double, 3, 1>>(&to_z_axis[0]).normalized();
     auto to_y_axis_mapped = Eigen::Map<Eigen::Matrix<double, 3, 1>>(&to_y_axis[0]).normalized();
 
-    double tolerance = 1e-16;
+    double tolerance = 1e-12;
     if (std::abs(to_z_axis_mapped.dot(to_y_axis_mapped)) > tolerance) {
         throw std::runtime_error("The z-axis and the y-axis are not orhogonal.");
     }
-- 
2.43.0


From 887f2252a7405d5074316ddeed6e6582c4f0f1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:46 +0000
Subject: [PATCH 45/62] fix: find the Euler angles of rotations about the
 y-axis for real matrices, too

---
 pairinteraction/SystemBase.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index 718ad57..249d804 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -1572,6 +1572,12 @@ Eigen::Matrix<double, 3, 1>
 SystemBase<Scalar, State>::getEulerAngles(const std::array<double, 3> &to_z_axis,
                                           const std::array<double, 3> &to_y_axis) {
     Eigen::Matrix<double, 3, 3> rotator = this->buildRotator(to_z_axis, to_y_axis);
+
+    // In case of a rotation about the y-axis, the Euler angles alpha and gamma are zero
+    if (rotator(0, 1) == 0 && rotator(2, 1) == 0 && rotator(1, 1) > 0) {
+        return {0, std::atan2(rotator(0, 2), rotator(2, 2)), 0};
+    }
+
     Eigen::Matrix<double, 3, 1> euler_zyz = rotator.eulerAngles(2, 1, 2);
     return euler_zyz; // alpha, beta, gamma
 }
-- 
2.43.0


From 116012b0ad80b841ee0579ec938460f2df22e061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:02 +0000
Subject: [PATCH 46/62] fix: store all parameters of a system when it is
 serialized

---
 pairinteraction/SystemOne.hpp | 3 ++-
 pairinteraction/SystemTwo.hpp | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pairinteraction/SystemOne.hpp b/pairinteraction/SystemOne.hpp
index ef9fdd1..88ca41f 100644
--- a/pairinteraction/SystemOne.hpp
+++ b/pairinteraction/SystemOne.hpp
@@ -171,10 +171,11 @@ private:
         ar &CEREAL_NVP(species);
         ar &CEREAL_NVP(efield) & CEREAL_NVP(bfield) & CEREAL_NVP(diamagnetism) &
             CEREAL_NVP(sym_reflection) & CEREAL_NVP(sym_rotation);
+        ar &CEREAL_NVP(charge) & CEREAL_NVP(ordermax) & CEREAL_NVP(distance);
         ar &CEREAL_NVP(efield_spherical) & CEREAL_NVP(bfield_spherical) &
             CEREAL_NVP(diamagnetism_terms);
         ar &CEREAL_NVP(interaction_efield) & CEREAL_NVP(interaction_bfield) &
-            CEREAL_NVP(interaction_diamagnetism);
+            CEREAL_NVP(interaction_diamagnetism) & CEREAL_NVP(interaction_multipole);
     }
 };
 
diff --git a/pairinteraction/SystemTwo.hpp b/pairinteraction/SystemTwo.hpp
index 54249a7..b5a58ba 100644
--- a/pairinteraction/SystemTwo.hpp
+++ b/pairinteraction/SystemTwo.hpp
@@ -187,7 +187,9 @@ private:
         ar &cereal::make_nvp("base_class", cereal::base_class<SystemBase<Scalar_, StateTwo>>(this));
         ar &CEREAL_NVP(species) & CEREAL_NVP(system1) & CEREAL_NVP(system2);
         ar &CEREAL_NVP(distance) & CEREAL_NVP(distance_x) & CEREAL_NVP(distance_y) &
-            CEREAL_NVP(distance_z) & CEREAL_NVP(surface_distance) & CEREAL_NVP(ordermax);
+            CEREAL_NVP(distance_z) & CEREAL_NVP(GTbool) & CEREAL_NVP(surface_distance) &
+            CEREAL_NVP(ordermax);
+        ar &CEREAL_NVP(minimal_le_roy_radius) & CEREAL_NVP(one_atom_basisvectors_indices);
         ar &CEREAL_NVP(sym_permutation) & CEREAL_NVP(sym_inversion) & CEREAL_NVP(sym_reflection) &
             CEREAL_NVP(sym_rotation);
         ar &CEREAL_NVP(angle_terms) & CEREAL_NVP(greentensor_terms_dd) &
-- 
2.43.0


From a2cd6a02eec9453145579bb436ba72fc3608690e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:25 +0000
Subject: [PATCH 47/62] fix: include the quadrupole part of the diamagnetic
 term on states that its monopole part couples, too

---
 pairinteraction/HamiltonianOne.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pairinteraction/HamiltonianOne.cpp b/pairinteraction/HamiltonianOne.cpp
index 2a8a45b..73a9058 100644
--- a/pairinteraction/HamiltonianOne.cpp
+++ b/pairinteraction/HamiltonianOne.cpp
@@ -276,8 +276,11 @@ void HamiltonianOne<Scalar>::build() {
             if (diamagnetism && (exist_B_0 || exist_B_1) &&
                 selectionRulesMultipole(state_row, state_col, 0, 0)) {
                 size_diamagnetism_00++;
-            } else if (diamagnetism && (exist_B_0 || exist_B_1) &&
-                       selectionRulesMultipole(state_row, state_col, 2, 0)) {
+            }
+
+            // the monopole and the quadrupole term can couple the same states
+            if (diamagnetism && (exist_B_0 || exist_B_1) &&
+                selectionRulesMultipole(state_row, state_col, 2, 0)) {
                 size_diamagnetism_20++;
             } else if (diamagnetism && (exist_B_0 && exist_B_1) &&
                        selectionRulesMultipole(state_row, state_col, 2, 1)) {
@@ -376,8 +379,11 @@ void HamiltonianOne<Scalar>::build() {
                 if (std::abs(val) > tol) {
                     hamiltonian_diamagnetism_00.addEntries(state_row.idx, state_col.idx, val);
                 }
-            } else if (diamagnetism && (exist_B_0 || exist_B_1) &&
-                       selectionRulesMultipole(state_row, state_col, 2, 0)) {
+            }
+
+            // the monopole and the quadrupole term can couple the same states
+            if (diamagnetism && (exist_B_0 || exist_B_1) &&
+                selectionRulesMultipole(state_row, state_col, 2, 0)) {
                 double val = matrix_elements.getDiamagnetism(state_row, state_col, 2);
                 if (std::abs(val) > tol) {
                     hamiltonian_diamagnetism_20.addEntries(state_row.idx, state_col.idx, val);
-- 
2.43.0


From 4489d88ce1ae5e0cb161023af2bcce29d9c02ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:50 +0000
Subject: [PATCH 48/62] fix: take the angular momentum between those of the two
 states for second-order couplings

---
 pairinteraction/PerturbativeInteraction.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pairinteraction/PerturbativeInteraction.cpp b/pairinteraction/PerturbativeInteraction.cpp
index 9dd04e9..f61d976 100644
--- a/pairinteraction/PerturbativeInteraction.cpp
+++ b/pairinteraction/PerturbativeInteraction.cpp
@@ -174,10 +174,10 @@ Eigen::MatrixX<double> PerturbativeInteraction::getC6(const std::vector<StateTwo
                         if (state_col.getL(0) > 0) {
                             array_l0.push_back(state_col.getL(0) - 1);
                         }
-                    } else if (state_row.getL(0) + 2 == state_col.getL(0) &&
+                    } else if (state_row.getL(0) - 2 == state_col.getL(0) &&
                                state_col.getL(0) < n0 - 1) {
                         array_l0.push_back(state_col.getL(0) + 1);
-                    } else if (state_row.getL(0) - 2 == state_col.getL(0) &&
+                    } else if (state_row.getL(0) + 2 == state_col.getL(0) &&
                                state_col.getL(0) > 0) {
                         array_l0.push_back(state_col.getL(0) - 1);
                     }
@@ -191,10 +191,10 @@ Eigen::MatrixX<double> PerturbativeInteraction::getC6(const std::vector<StateTwo
                             if (state_col.getL(1) > 0) {
                                 array_l1.push_back(state_col.getL(1) - 1);
                             }
-                        } else if (state_row.getL(1) + 2 == state_col.getL(1) &&
+                        } else if (state_row.getL(1) - 2 == state_col.getL(1) &&
                                    state_col.getL(1) < n1 - 1) {
                             array_l1.push_back(state_col.getL(1) + 1);
-                        } else if (state_row.getL(1) - 2 == state_col.getL(1) &&
+                        } else if (state_row.getL(1) + 2 == state_col.getL(1) &&
                                    state_col.getL(1) > 0) {
                             array_l1.push_back(state_col.getL(1) - 1);
                         }
-- 
2.43.0


From f0e10e34ec54796cd1bf86f63074929c81337851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:50 +0000
Subject: [PATCH 49/62] fix: include all total angular momenta of the
 intermediate states for second-order couplings

---
 pairinteraction/PerturbativeInteraction.cpp | 58 +++++++--------------
 1 file changed, 20 insertions(+), 38 deletions(-)

diff --git a/pairinteraction/PerturbativeInteraction.cpp b/pairinteraction/PerturbativeInteraction.cpp
index f61d976..2414d8e 100644
--- a/pairinteraction/PerturbativeInteraction.cpp
+++ b/pairinteraction/PerturbativeInteraction.cpp
@@ -61,32 +61,18 @@ double PerturbativeInteraction::getC6(const StateTwo &state, double deltaN) {
                 }
                 for (int l1 : array_l1) {
 
-                    std::set<float> array_j0;
-                    if (std::abs(std::abs(l0 - state.getS(0)) - state.getJ(0)) < 2) {
-                        array_j0.insert(std::abs(l0 - state.getS(0)));
-                    }
-                    if (std::abs(l0 + state.getS(0) - state.getJ(0)) < 2) {
-                        array_j0.insert(l0 + state.getS(0));
-                    }
-                    if (array_j0.size() == 2) {
-                        for (float j0 = std::abs(l0 - state.getS(0)) + 1; j0 < l0 + state.getS(0);
-                             ++j0) {
-                            array_j0.insert(j0);
+                    std::vector<float> array_j0;
+                    for (float j0 = std::abs(l0 - state.getS(0)); j0 <= l0 + state.getS(0); ++j0) {
+                        if (std::abs(j0 - state.getJ(0)) < 2) {
+                            array_j0.push_back(j0);
                         }
                     }
                     for (float j0 : array_j0) {
 
-                        std::set<float> array_j1;
-                        if (std::abs(std::abs(l1 - state.getS(1)) - state.getJ(1)) < 2) {
-                            array_j1.insert(std::abs(l1 - state.getS(1)));
-                        }
-                        if (std::abs(l1 + state.getS(1) - state.getJ(1)) < 2) {
-                            array_j1.insert(l1 + state.getS(1));
-                        }
-                        if (array_j1.size() == 2) {
-                            for (float j1 = std::abs(l1 - state.getS(1)) + 1;
-                                 j1 < l1 + state.getS(1); ++j1) {
-                                array_j1.insert(j1);
+                        std::vector<float> array_j1;
+                        for (float j1 = std::abs(l1 - state.getS(1)); j1 <= l1 + state.getS(1); ++j1) {
+                            if (std::abs(j1 - state.getJ(1)) < 2) {
+                                array_j1.push_back(j1);
                             }
                         }
                         for (float j1 : array_j1) {
@@ -200,25 +186,21 @@ Eigen::MatrixX<double> PerturbativeInteraction::getC6(const std::vector<StateTwo
                         }
                         for (int l1 : array_l1) {
 
-                            std::set<float> array_j0;
-                            if (std::abs(std::abs(l0 - s[0]) - state_col.getJ(0)) < 2 &&
-                                std::abs(std::abs(l0 - s[0]) - state_row.getJ(0)) < 2) {
-                                array_j0.insert(std::abs(l0 - s[0]));
-                            }
-                            if (std::abs(l0 + s[0] - state_col.getJ(0)) < 2 &&
-                                std::abs(l0 + s[0] - state_row.getJ(0)) < 2) {
-                                array_j0.insert(l0 + s[0]);
+                            std::vector<float> array_j0;
+                            for (float j0 = std::abs(l0 - s[0]); j0 <= l0 + s[0]; ++j0) {
+                                if (std::abs(j0 - state_col.getJ(0)) < 2 &&
+                                    std::abs(j0 - state_row.getJ(0)) < 2) {
+                                    array_j0.push_back(j0);
+                                }
                             }
                             for (float j0 : array_j0) {
 
-                                std::set<float> array_j1;
-                                if (std::abs(std::abs(l1 - s[1]) - state_col.getJ(1)) < 2 &&
-                                    std::abs(std::abs(l1 - s[1]) - state_row.getJ(1)) < 2) {
-                                    array_j1.insert(std::abs(l1 - s[1]));
-                                }
-                                if (std::abs(l1 + s[1] - state_col.getJ(1)) < 2 &&
-                                    std::abs(l1 + s[1] - state_row.getJ(1)) < 2) {
-                                    array_j1.insert(l1 + s[1]);
+                                std::vector<float> array_j1;
+                                for (float j1 = std::abs(l1 - s[1]); j1 <= l1 + s[1]; ++j1) {
+                                    if (std::abs(j1 - state_col.getJ(1)) < 2 &&
+                                        std::abs(j1 - state_row.getJ(1)) < 2) {
+                                        array_j1.push_back(j1);
+                                    }
                                 }
                                 for (float j1 : array_j1) {
 
-- 
2.43.0


From 96bb907aed6f27afde25b06b1f85a5647797b65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:50 +0000
Subject: [PATCH 50/62] fix: ignore rounding errors of the angular terms for
 second-order couplings to degenerate states

---
 pairinteraction/PerturbativeInteraction.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pairinteraction/PerturbativeInteraction.cpp b/pairinteraction/PerturbativeInteraction.cpp
index 2414d8e..3349e2f 100644
--- a/pairinteraction/PerturbativeInteraction.cpp
+++ b/pairinteraction/PerturbativeInteraction.cpp
@@ -223,7 +223,8 @@ Eigen::MatrixX<double> PerturbativeInteraction::getC6(const std::vector<StateTwo
                                         if (std::abs(q0_back) > 1 || std::abs(q1_back) > 1) {
                                             continue;
                                         }
-                                        if (array_q.size() == 3 && q0_back + q1_back != 0) {
+                                        if (array_angle_term[3 * (q0_back + 1) + (q1_back + 1)] ==
+                                            0) {
                                             continue;
                                         }
 
@@ -283,9 +284,6 @@ Eigen::MatrixX<double> PerturbativeInteraction::getC3(const std::vector<StateTwo
             int q0 = state_row.getM(0) - state_col.getM(0);
             int q1 = state_row.getM(1) - state_col.getM(1);
 
-            if (array_q.size() == 3 && q0 + q1 != 0) {
-                continue;
-            }
             if (std::abs(q0) > 1 || std::abs(q1) > 1) {
                 continue;
             }
@@ -315,6 +313,8 @@ Eigen::MatrixX<double> PerturbativeInteraction::getEnergy(const std::vector<Stat
 }
 
 void PerturbativeInteraction::initializeAngleTerms(double angle) {
+    array_angle_term.fill(0);
+
     if (angle == 0) {
         array_q.reserve(3);
 
@@ -359,5 +359,17 @@ void PerturbativeInteraction::initializeAngleTerms(double angle) {
         array_q.push_back({{-1, 0}});
         array_angle_term[3 * (-1 + 1) + (0 + 1)] =
             -3. / std::sqrt(2) * std::sin(angle) * std::cos(angle);
+
+        // Drop the terms that vanish up to rounding errors. They would contribute to the second
+        // order if the coupled states are degenerate.
+        for (auto it = array_q.begin(); it != array_q.end();) {
+            double &term = array_angle_term[3 * ((*it)[0] + 1) + ((*it)[1] + 1)];
+            if (std::abs(term) < 1e-14) {
+                term = 0;
+                it = array_q.erase(it);
+            } else {
+                ++it;
+            }
+        }
     }
 }
-- 
2.43.0


From 641ddaab9213b685b3613b6fb5052dfb1e308353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:30 +0000
Subject: [PATCH 51/62] fix: leave out intermediate states that do not exist
 because of too small principal quantum numbers

---
 pairinteraction/PerturbativeInteraction.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pairinteraction/PerturbativeInteraction.cpp b/pairinteraction/PerturbativeInteraction.cpp
index 3349e2f..71305bc 100644
--- a/pairinteraction/PerturbativeInteraction.cpp
+++ b/pairinteraction/PerturbativeInteraction.cpp
@@ -44,7 +44,7 @@ double PerturbativeInteraction::getC6(const StateTwo &state, double deltaN) {
         for (int n1 = state.getN(1) - deltaN; n1 <= state.getN(1) + deltaN; ++n1) {
 
             std::vector<int> array_l0;
-            if (state.getL(0) > 0) {
+            if (state.getL(0) > 0 && state.getL(0) - 1 < n0) {
                 array_l0.push_back(state.getL(0) - 1);
             }
             if (state.getL(0) < n0 - 1) {
@@ -53,7 +53,7 @@ double PerturbativeInteraction::getC6(const StateTwo &state, double deltaN) {
             for (int l0 : array_l0) {
 
                 std::vector<int> array_l1;
-                if (state.getL(1) > 0) {
+                if (state.getL(1) > 0 && state.getL(1) - 1 < n1) {
                     array_l1.push_back(state.getL(1) - 1);
                 }
                 if (state.getL(1) < n1 - 1) {
@@ -157,14 +157,14 @@ Eigen::MatrixX<double> PerturbativeInteraction::getC6(const std::vector<StateTwo
                         if (state_col.getL(0) < n0 - 1) {
                             array_l0.push_back(state_col.getL(0) + 1);
                         }
-                        if (state_col.getL(0) > 0) {
+                        if (state_col.getL(0) > 0 && state_col.getL(0) - 1 < n0) {
                             array_l0.push_back(state_col.getL(0) - 1);
                         }
                     } else if (state_row.getL(0) - 2 == state_col.getL(0) &&
                                state_col.getL(0) < n0 - 1) {
                         array_l0.push_back(state_col.getL(0) + 1);
                     } else if (state_row.getL(0) + 2 == state_col.getL(0) &&
-                               state_col.getL(0) > 0) {
+                               state_col.getL(0) - 1 < n0) {
                         array_l0.push_back(state_col.getL(0) - 1);
                     }
                     for (int l0 : array_l0) {
@@ -174,14 +174,14 @@ Eigen::MatrixX<double> PerturbativeInteraction::getC6(const std::vector<StateTwo
                             if (state_col.getL(1) < n1 - 1) {
                                 array_l1.push_back(state_col.getL(1) + 1);
                             }
-                            if (state_col.getL(1) > 0) {
+                            if (state_col.getL(1) > 0 && state_col.getL(1) - 1 < n1) {
                                 array_l1.push_back(state_col.getL(1) - 1);
                             }
                         } else if (state_row.getL(1) - 2 == state_col.getL(1) &&
                                    state_col.getL(1) < n1 - 1) {
                             array_l1.push_back(state_col.getL(1) + 1);
                         } else if (state_row.getL(1) + 2 == state_col.getL(1) &&
-                                   state_col.getL(1) > 0) {
+                                   state_col.getL(1) - 1 < n1) {
                             array_l1.push_back(state_col.getL(1) - 1);
                         }
                         for (int l1 : array_l1) {
-- 
2.43.0


From 5ca9f8877be5d68898735cade2748a1b53e19462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:53 +0000
Subject: [PATCH 52/62] fix: read matrices without stored elements as zeros
 instead of as empty

---
 pairinteraction_gui/loader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pairinteraction_gui/loader.py b/pairinteraction_gui/loader.py
index f831fb7..deeadbf 100644
--- a/pairinteraction_gui/loader.py
+++ b/pairinteraction_gui/loader.py
@@ -91,7 +91,7 @@ class Eigensystem(BinaryLoader):
         if self._energies is None:
             with open(self._filename + ".mat", "rb") as f:
                 tmp = self.readMatrix(f)
-                if tmp.size:
+                if tmp.shape[0] > 0:
                     self._energies = np.real(tmp.diagonal())
                 else:
                     self._energies = np.array([])
@@ -106,7 +106,7 @@ class Eigensystem(BinaryLoader):
                     f.seek(self._shift, 0)
                 else:
                     tmp = self.readMatrix(f)
-                    if tmp.size:
+                    if tmp.shape[0] > 0:
                         self._energies = np.real(tmp.diagonal())
                     else:
                         self._energies = np.array([])
-- 
2.43.0


From 3a98a19d8e2b482429ce61a3fd6ac831738297b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:59 +0000
Subject: [PATCH 53/62] fix: create the table of cached matrices before any
 thread uses it

---
 pairinteraction/HamiltonianOne.cpp | 6 +++---
 pairinteraction/HamiltonianTwo.cpp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pairinteraction/HamiltonianOne.cpp b/pairinteraction/HamiltonianOne.cpp
index 73a9058..53de166 100644
--- a/pairinteraction/HamiltonianOne.cpp
+++ b/pairinteraction/HamiltonianOne.cpp
@@ -504,6 +504,7 @@ void HamiltonianOne<Scalar>::build() {
         std::stringstream query;
         std::string spacer;
 
+#pragma omp critical(database)
         if (flag_perhapsmissingtable) {
             query << "CREATE TABLE IF NOT EXISTS cache_one (uuid text NOT NULL PRIMARY KEY, "
                      "created TIMESTAMP DEFAULT CURRENT_TIMESTAMP, "
@@ -518,10 +519,9 @@ void HamiltonianOne<Scalar>::build() {
             }
             query << "));";
 
-            flag_perhapsmissingtable = false;
-
-#pragma omp critical(database)
             stmt.exec(query.str());
+
+            flag_perhapsmissingtable = false;
         }
 
         // === Get uuid as filename === // TODO put code in its own method
diff --git a/pairinteraction/HamiltonianTwo.cpp b/pairinteraction/HamiltonianTwo.cpp
index a3136de..c2c02fa 100644
--- a/pairinteraction/HamiltonianTwo.cpp
+++ b/pairinteraction/HamiltonianTwo.cpp
@@ -719,6 +719,7 @@ void HamiltonianTwo<Scalar>::calculate(const Configuration &conf_tot) {
             std::stringstream query;
             std::string spacer;
 
+#pragma omp critical(database)
             if (flag_perhapsmissingtable) {
                 query << "CREATE TABLE IF NOT EXISTS cache_two (uuid text NOT NULL PRIMARY KEY, "
                          "created TIMESTAMP DEFAULT CURRENT_TIMESTAMP, "
@@ -733,7 +734,6 @@ void HamiltonianTwo<Scalar>::calculate(const Configuration &conf_tot) {
                 }
                 query << "));";
 
-#pragma omp critical(database)
                 stmt.exec(query.str());
 
                 flag_perhapsmissingtable = false;
-- 
2.43.0


From 6b4a130e7a0d6118aa9fea3391d8c28fe35e05b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:49 +0000
Subject: [PATCH 54/62] fix: do not let threads write to neighboring elements
 of a vector of bools

---
 pairinteraction/HamiltonianTwo.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pairinteraction/HamiltonianTwo.cpp b/pairinteraction/HamiltonianTwo.cpp
index c2c02fa..562ab48 100644
--- a/pairinteraction/HamiltonianTwo.cpp
+++ b/pairinteraction/HamiltonianTwo.cpp
@@ -357,8 +357,17 @@ void HamiltonianTwo<Scalar>::calculate(const Configuration &conf_tot) {
 
 #pragma omp parallel for
     for (int i = 0; i < nSteps_one_i; ++i) {
+        // neighboring elements of a vector of bools must not be written by different threads
+        std::vector<bool> necessary_step(this->basis->size(), false);
         energycutoff(*(hamiltonian_one1->get(i)), *(hamiltonian_one2->get(i)), deltaE,
-                     necessary_tmp);
+                     necessary_step);
+
+#pragma omp critical(necessary)
+        for (size_t idx = 0; idx < necessary_step.size(); ++idx) {
+            if (necessary_step[idx]) {
+                necessary_tmp[idx] = true;
+            }
+        }
     }
 
     // Apply restrictions due to symmetries
-- 
2.43.0


From ac2df8ceb794af1b88d87e1524d9c656bab22d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:50 +0000
Subject: [PATCH 55/62] fix: refuse a Schrieffer-Wolff transformation to more
 basis vectors than there are

---
 pairinteraction/SystemBase.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pairinteraction/SystemBase.cpp b/pairinteraction/SystemBase.cpp
index 249d804..fa88b45 100644
--- a/pairinteraction/SystemBase.cpp
+++ b/pairinteraction/SystemBase.cpp
@@ -1012,6 +1012,12 @@ void SystemBase<Scalar, State>::applySchriefferWolffTransformation(
                                  "applySchriefferWolffTransformation() is not diagonal.");
     }
 
+    // Check that there is a basis vector of the perturbed system for each one of system0
+    if (basisvectors.cols() < system0.basisvectors.cols()) {
+        throw std::runtime_error("The system, on which applySchriefferWolffTransformation() is "
+                                 "called, has fewer basis vectors than the unperturbed system.");
+    }
+
     // --- Express the basis vectors of system0 as a linearcombination of all states ---
 
     // Combine states and build transformators
-- 
2.43.0


From f44ed2a73364f402ac1007c57a26e8795d844bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:06 +0000
Subject: [PATCH 56/62] fix: an error reported by the backend ended the
 client's reader with an exception

The reader of the backend's reports was split into Worker and AllQueues,
but only Worker has the signal which shows errors to the user. A report
of an error hence raised an AttributeError in the reading thread.
---
 pairinteraction_gui/worker.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pairinteraction_gui/worker.py b/pairinteraction_gui/worker.py
index 1a62e91..f6433ed 100644
--- a/pairinteraction_gui/worker.py
+++ b/pairinteraction_gui/worker.py
@@ -48,7 +48,7 @@ class Worker(QThread):
         for line in iter(self.stdout.readline, b""):
             if self.exiting or not line or self.all_queues.finishedgracefully:
                 break
-            self.all_queues.processOneLine(line)
+            self.all_queues.processOneLine(line, self.criticalsignal)
 
         # Clear data queue if thread has aborted
         if not self.all_queues.finishedgracefully:
@@ -78,7 +78,7 @@ class AllQueues:
 
         self.finishedgracefully = False
 
-    def processOneLine(self, line):
+    def processOneLine(self, line, criticalsignal=None):
         if isinstance(line, bytes):
             line = line.decode("utf-8")
 
@@ -123,7 +123,8 @@ class AllQueues:
             self.dataqueues[self._type % 3].put([filestep, blocks, blocknumber, filename])
 
         elif line[:5] == ">>ERR":
-            self.criticalsignal.emit(line[5:].strip())
+            if criticalsignal is not None:
+                criticalsignal.emit(line[5:].strip())
 
         elif line[:5] == ">>END":
             self.finishedgracefully = True
-- 
2.43.0


From 92859565aa73d5d22de0c0b18fbee3f9418a230e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:22 +0000
Subject: [PATCH 57/62] fix: an interrupted client left a file of rotation
 coefficients that could not be read

The file was truncated before it was written anew, so that the next
start failed with an EOFError until the user cleared the cache.
---
 pairinteraction_gui/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pairinteraction_gui/utils.py b/pairinteraction_gui/utils.py
index 409d142..b6f030e 100644
--- a/pairinteraction_gui/utils.py
+++ b/pairinteraction_gui/utils.py
@@ -36,9 +36,12 @@ class Wignerd:
             if not self.cachupdatedict[k]:
                 continue
             path = os.path.join(self.cachedir, k)
-            with open(path, "wb") as f:
+            # Replace the file at once so that it is never read while being incomplete
+            path_tmp = f"{path}.{os.getpid()}.tmp"
+            with open(path_tmp, "wb") as f:
                 pickle.dump(v, f, pickle.HIGHEST_PROTOCOL)
-                self.cachupdatedict[k] = False
+            os.replace(path_tmp, path)
+            self.cachupdatedict[k] = False
 
     def calc(self, j, m2, m1, beta):
         sgn = 1
-- 
2.43.0


From 3386dd0237287ebac9f28f4adf62a98799a9b2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:21 +0000
Subject: [PATCH 58/62] fix: the second of two different atoms kept its fields
 in the calculations of the client

---
 pairinteraction_gui/pipy/atom.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pairinteraction_gui/pipy/atom.py b/pairinteraction_gui/pipy/atom.py
index 7b38c45..98c0e22 100755
--- a/pairinteraction_gui/pipy/atom.py
+++ b/pairinteraction_gui/pipy/atom.py
@@ -367,7 +367,7 @@ class AtomOne(Atom):
         self._system = system
         super()._createSystem()
 
-    def updateFromParams(self, new):
+    def updateFromParams(self, new, force=False):
         """Updating the system from given parameters.
 
         Parameters
@@ -376,6 +376,9 @@ class AtomOne(Atom):
             The parameters to update the system with.
             Should only contain the following keys:
             Ex, Ey, Ez, Bx, By, Bz
+        force : bool
+            Update the system even if the config has these parameters already
+            (because another atom, which shares the parameters, has been updated before).
 
         Returns
         -------
@@ -389,8 +392,8 @@ class AtomOne(Atom):
         Efield = [new.get("Ex", config.Ex()), new.get("Ey", config.Ey()), new.get("Ez", config.Ez())]
         Bfield = [new.get("Bx", config.Bx()), new.get("By", config.By()), new.get("Bz", config.Bz())]
         update = {
-            "Efield": Efield != config.Efield(),
-            "Bfield": Bfield != config.Bfield(),
+            "Efield": force or Efield != config.Efield(),
+            "Bfield": force or Bfield != config.Bfield(),
         }
 
         if any(update.values()):
@@ -539,9 +542,9 @@ class AtomTwo(Atom):
             raise ValueError(f"Invalid key {k} in AtomTwo updateFromParams")
 
         config = self.config
-        update = {
-            **{f"atom{i}": atom.updateFromParams(atom_new) for i, atom in enumerate(self.atoms, 1)},
-        }
+        update = {}
+        for i, atom in enumerate(self.atoms, 1):
+            update[f"atom{i}"] = atom.updateFromParams(atom_new, force=any(update.values()))
         for k in ["angle", "distance", "inversion", "permutation", "reflection"]:
             if k in new:
                 update[k] = new[k] != getattr(config, k)()
-- 
2.43.0


From f543f0ac634d61137f840125a56e24cfa40b90f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:42 +0000
Subject: [PATCH 59/62] fix: copies of the client's atoms forgot which atom
 they are and did not share their parameters

---
 pairinteraction_gui/pipy/atom.py   | 3 +++
 pairinteraction_gui/pipy/config.py | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pairinteraction_gui/pipy/atom.py b/pairinteraction_gui/pipy/atom.py
index 98c0e22..c50c4ab 100755
--- a/pairinteraction_gui/pipy/atom.py
+++ b/pairinteraction_gui/pipy/atom.py
@@ -463,6 +463,9 @@ class AtomTwo(Atom):
             new._atom1 = self.atom1.copy()
         if self._atom2 is not None and not self.config.useSameAtom():
             new._atom2 = self.atom2.copy()
+        for atom in [new._atom1, new._atom2]:
+            if atom is not None:
+                atom.config._dic = config._dic  # the atoms share the parameters of the pair
         new._system = self.copySystem()
         return new
 
diff --git a/pairinteraction_gui/pipy/config.py b/pairinteraction_gui/pipy/config.py
index d7b42de..c55df7f 100755
--- a/pairinteraction_gui/pipy/config.py
+++ b/pairinteraction_gui/pipy/config.py
@@ -112,7 +112,10 @@ class Config:
 
     def deepCopy(self) -> "Config":
         """Copy the Config object and also copy the underlying user dictionary."""
-        return Config(self._dic.copy())
+        new = Config(self._dic.copy())
+        # keep also which atom it belongs to and the energies that have been calculated
+        new.__dict__.update({k: v for k, v in self.__dict__.items() if k != "_dic"})
+        return new
 
     # Single atom parameters
     def _getSingle(self, key, part, default=InvalidKey):
-- 
2.43.0


From 9cd475170e014de9f6ebab71533f98b17fb49607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:00 +0000
Subject: [PATCH 60/62] fix: the client could not calculate pair potentials
 without a restriction of the pair energy

---
 pairinteraction_gui/pipy_thread.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pairinteraction_gui/pipy_thread.py b/pairinteraction_gui/pipy_thread.py
index 10eb90a..c8caa3f 100755
--- a/pairinteraction_gui/pipy_thread.py
+++ b/pairinteraction_gui/pipy_thread.py
@@ -139,6 +139,9 @@ class PipyThread(QThread):
         if atom.noStates:
             info("No states found to diagonalize", kwargs)
             return
+        if atom.nAtoms == 2:
+            # the results are given relative to these energies, calculate them also if the basis is not restricted by them
+            atom.config.getEnergiesPair(atom.atom1, atom.atom2)
         if atom.nAtoms == 2:
             allQunumbers = [[*qns[:, 0], *qns[:, 1]] for qns in np.array(atom.allQunumbers)]
         else:
-- 
2.43.0


From 2742be4db6d826419d667f40b57b95292d9b97e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:49 +0000
Subject: [PATCH 61/62] fix: results of the client that are relative to
 different energies were stored under one name

---
 pairinteraction_gui/pipy/config.py | 1 +
 pairinteraction_gui/pipy_thread.py | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/pairinteraction_gui/pipy/config.py b/pairinteraction_gui/pipy/config.py
index c55df7f..fb5910d 100755
--- a/pairinteraction_gui/pipy/config.py
+++ b/pairinteraction_gui/pipy/config.py
@@ -234,6 +234,7 @@ class Config:
 
     def toOutDictSingle(self, part=None) -> "dict[str, Any]":
         """Get a dictionary with all the output parameters for one AtomOne."""
+        part = getattr(self, "iAtom", 1) if part is None else part
         output = {
             "species": self.species(part),
             "momenta": self.momentaSingle(part),
diff --git a/pairinteraction_gui/pipy_thread.py b/pairinteraction_gui/pipy_thread.py
index c8caa3f..f752cf7 100755
--- a/pairinteraction_gui/pipy_thread.py
+++ b/pairinteraction_gui/pipy_thread.py
@@ -139,9 +139,12 @@ class PipyThread(QThread):
         if atom.noStates:
             info("No states found to diagonalize", kwargs)
             return
+        # the results are given relative to these energies, calculate them also if the basis is not restricted by them
+        # (they thus become part of the hash, under which the results are stored)
         if atom.nAtoms == 2:
-            # the results are given relative to these energies, calculate them also if the basis is not restricted by them
             atom.config.getEnergiesPair(atom.atom1, atom.atom2)
+        else:
+            atom.config.getEnergiesSingle()
         if atom.nAtoms == 2:
             allQunumbers = [[*qns[:, 0], *qns[:, 1]] for qns in np.array(atom.allQunumbers)]
         else:
-- 
2.43.0


From ccbd1588ccd37e26473ddb4eb425ab9432b2e288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:21 +0000
Subject: [PATCH 62/62] fix: the client restricted the energies of the second
 atom around those of the first one's species

---
 pairinteraction_gui/pipy/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pairinteraction_gui/pipy/config.py b/pairinteraction_gui/pipy/config.py
index fb5910d..963fbd6 100755
--- a/pairinteraction_gui/pipy/config.py
+++ b/pairinteraction_gui/pipy/config.py
@@ -227,7 +227,7 @@ class Config:
                 from pairinteraction import pireal
 
                 pi = pireal
-            states = [pi.StateOne(self.species(), *qn) for qn in self.qnumbersSingle(part)]
+            states = [pi.StateOne(self.species(part), *qn) for qn in self.qnumbersSingle(part)]
             energies = [s.getEnergy() for s in states]
             setattr(self, f"_energiesSingle{part}", energies)
         return getattr(self, f"_energiesSingle{part}")
-- 
2.43.0

