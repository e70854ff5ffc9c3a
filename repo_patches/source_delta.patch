From 6ca5865d4447ffa5e74a5f9096da0e0fe1645ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:19 +0000
Subject: [PATCH 01/14] fix: let WithMarkedPoint default to false, as in the
 documented configuration

---
 src/config/config_node.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/config/config_node.cc b/src/config/config_node.cc
index ff4f0e9..8273ced 100644
--- a/src/config/config_node.cc
+++ b/src/config/config_node.cc
@@ -92,7 +92,10 @@ namespace YAML
     config.prime_exponent = node["PrimeExponent"].as<int>();
   
     config.genus = node["Genus"].as<int>();
-    config.with_marked_point = node["WithMarkedPoint"].as<bool>();
+    if ( node["WithMarkedPoint"] )
+      config.with_marked_point = node["WithMarkedPoint"].as<bool>();
+    else
+      config.with_marked_point = false;
 
     if ( node["CountExponent"] )
       config.count_exponent = node["CountExponent"].as<int>();
-- 
2.43.0


From 15d6d60e35373cc370619f2fd828cb8ba3dc714f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:19 +0000
Subject: [PATCH 02/14] fix: reduce coefficients of single curves modulo the
 prime

---
 src/single_curve_fp.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/single_curve_fp.cc b/src/single_curve_fp.cc
index 54fd531..39083cd 100644
--- a/src/single_curve_fp.cc
+++ b/src/single_curve_fp.cc
@@ -54,7 +54,7 @@ single_curve_fp(
 
   vector<unsigned int> poly_coeff_exponents;
   for ( auto c : poly_coeffs )
-    poly_coeff_exponents.push_back(fp_conversion_map[c]);
+    poly_coeff_exponents.push_back(fp_conversion_map[c % prime]);
 
   shared_ptr<OpenCLInterface> opencl;
   if (  implementation == SingleCurveCountImplementationCPU
-- 
2.43.0


From 216e010743cb2fad649c1c97741112d755d019b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:19 +0000
Subject: [PATCH 03/14] fix: copy counts deeply, so that counts beyond one word
 are not shared

---
 src/store/store_data.hh | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/store/store_data.hh b/src/store/store_data.hh
index c65ab54..4e7b81e 100644
--- a/src/store/store_data.hh
+++ b/src/store/store_data.hh
@@ -81,6 +81,17 @@ class Count
         fmpz_set(this->counter, count.value.counter);
       };
 
+      ValueType(const ValueType & value)
+      {
+        fmpz_init_set(this->counter, value.counter);
+      };
+
+      ValueType & operator=(const ValueType & value)
+      {
+        fmpz_set(this->counter, value.counter);
+        return *this;
+      };
+
       ValueType(const string & str);
 
       ~ValueType()
-- 
2.43.0


From df774ac6169c53fdb57d7d149f1f9f9546baae41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:19 +0000
Subject: [PATCH 04/14] fix: do not add an empty block when reading a record,
 nor loop on unreadable ones

---
 src/store/file_store.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/store/file_store.cc b/src/store/file_store.cc
index 1bb4d4c..1a714c4 100644
--- a/src/store/file_store.cc
+++ b/src/store/file_store.cc
@@ -123,8 +123,7 @@ extract(
 {
   vuu_block block;
 
-  stream.peek();
-  while ( !stream.eof() ) {
+  while ( stream.peek() != istream::traits_type::eof() ) {
     block.clear();
     FileStore::extract(stream, block);
     record.insert(block);
-- 
2.43.0


From 867ae51d5b1149c718809aa50fd950f88bc7541b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:19 +0000
Subject: [PATCH 05/14] fix: wait for work on the mutex that guards it, so that
 no wake-up is lost

---
 src/threaded/thread.cc | 27 +++++++++------------------
 src/threaded/thread.hh |  1 -
 2 files changed, 9 insertions(+), 19 deletions(-)

diff --git a/src/threaded/thread.cc b/src/threaded/thread.cc
index 2431679..f541276 100644
--- a/src/threaded/thread.cc
+++ b/src/threaded/thread.cc
@@ -54,34 +54,25 @@ main_thread(
     const shared_ptr<StoreFactoryInterface> store_factory
     )
 {
-  unique_lock<mutex> main_lock(thread->main_mutex);
-
   while ( true ) {
-    while ( true ) {
-      thread->data_mutex.lock();
-      bool shutting_down = thread->shutting_down;
-      bool blocks_empty = thread->blocks.empty();
-      thread->data_mutex.unlock();
-
-      if ( shutting_down )
-        return;
-
-      if ( blocks_empty )
-        thread->main_cond_var.wait(main_lock);
-      else
-        break;
-    }
+    // wait on the mutex that guards the data, so that no notification is lost
+    // between testing the data and falling asleep
+    unique_lock<mutex> data_lock(thread->data_mutex);
+    while ( !thread->shutting_down && thread->blocks.empty() )
+      thread->main_cond_var.wait(data_lock);
+
+    if ( thread->shutting_down )
+      return;
 
 
     vuu_block block;
     shared_ptr<FqElementTable> fq_table;
     vector<shared_ptr<ReductionTable>> reduction_tables;
 
-    thread->data_mutex.lock();
     tie(block, fq_table, reduction_tables) =
       thread->blocks.front();
     thread->blocks.pop_front();
-    thread->data_mutex.unlock();
+    data_lock.unlock();
 
     auto store = store_factory->create();
     for ( BlockIterator iter(block); !iter.is_end(); iter.step() ) {
diff --git a/src/threaded/thread.hh b/src/threaded/thread.hh
index 8f43297..79c63c7 100644
--- a/src/threaded/thread.hh
+++ b/src/threaded/thread.hh
@@ -81,7 +81,6 @@ class Thread :
     thread main_std_thread;
     bool shutting_down;
 
-    mutex main_mutex;
     mutex data_mutex;
     condition_variable main_cond_var;
 
-- 
2.43.0


From 155b72d3a1e3b669a22f7d9b860e5616f7940144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:19 +0000
Subject: [PATCH 06/14] fix: publish a record only after its store was written,
 and only as a whole

---
 src/store/file_store.cc | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/store/file_store.cc b/src/store/file_store.cc
index 1a714c4..f4830be 100644
--- a/src/store/file_store.cc
+++ b/src/store/file_store.cc
@@ -68,9 +68,26 @@ save(
   path path_record, path_store;
   tie(path_record, path_store) = this->new_filenames();
 
-  // save record second as a witness to successful writing
-  fstream(path_store.native(),  ios_base::out) << get<1>(record_store);
-  fstream(path_record.native(), ios_base::out) << get<0>(record_store);
+  auto write = [](const path & filepath, const string & content) {
+      fstream stream(filepath.native(), ios_base::out);
+      stream << content;
+      stream.close();
+      return !stream.fail();
+    };
+
+  // save record second as a witness to successful writing, and let it appear
+  // under its final name only when it is complete
+  path path_record_tmp(path_record.native() + ".tmp");
+  if (    !write(path_store, get<1>(record_store))
+       || !write(path_record_tmp, get<0>(record_store)) ) {
+    cerr << "FileStore::save: could not write " << path_store << endl;
+    return;
+  }
+
+  boost::system::error_code error;
+  filesys::rename(path_record_tmp, path_record, error);
+  if ( error )
+    cerr << "FileStore::save: could not write " << path_record << endl;
 }
 
 tuple<path, path>
-- 
2.43.0


From ced434c8a849dbe077ef750edd4157889391244e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:19 +0000
Subject: [PATCH 07/14] fix: report unwritable output files of the merger

---
 src/executables/merger.cc | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/executables/merger.cc b/src/executables/merger.cc
index f941620..cd45797 100644
--- a/src/executables/merger.cc
+++ b/src/executables/merger.cc
@@ -157,8 +157,21 @@ merge(
   }
 
   // save record second as a witness to successful writing
-  store.insert( fstream(store_output_file.native(), ios_base::out) );
-  FileStore::insert( fstream(record_output_file.native(), ios_base::out), record );
+  fstream store_stream(store_output_file.native(), ios_base::out);
+  store.insert( store_stream );
+  store_stream.close();
+  if ( store_stream.fail() ) {
+    cerr << "could not write " << store_output_file << endl;
+    return 1;
+  }
+
+  fstream record_stream(record_output_file.native(), ios_base::out);
+  FileStore::insert( record_stream, record );
+  record_stream.close();
+  if ( record_stream.fail() ) {
+    cerr << "could not write " << record_output_file << endl;
+    return 1;
+  }
 
   return 0;
 }
-- 
2.43.0


From ef36ee5f17c90bae3001c2c35e01ad088c6b626a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:19 +0000
Subject: [PATCH 08/14] fix: never take zero for a generator of the
 multiplicative group

---
 src/fq_element_table.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fq_element_table.cc b/src/fq_element_table.cc
index 454b4db..9753bbb 100644
--- a/src/fq_element_table.cc
+++ b/src/fq_element_table.cc
@@ -60,6 +60,8 @@ FqElementTable(
   this->fq_elements.reserve(this->prime_power);
 
   for ( bool is_gen = false; !is_gen; fq_nmod_randtest(gen, state, this->fq_ctx)) {
+    if ( fq_nmod_is_zero(gen, this->fq_ctx) )
+      continue;
     is_gen = true;
 
     this->fq_elements.clear();
-- 
2.43.0


From 50ebf236e57c0d3437568c8d72891dc29fd29d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:41 +0000
Subject: [PATCH 09/14] fix: do not overflow when tabulating powers of a large
 generator

---
 src/single_curve_fp.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/single_curve_fp.cc b/src/single_curve_fp.cc
index 39083cd..283ec0a 100644
--- a/src/single_curve_fp.cc
+++ b/src/single_curve_fp.cc
@@ -49,7 +49,7 @@ single_curve_fp(
   fp_conversion_map[0] = prime-1;
   for (unsigned int ex=0; ex<prime-1; ++ex) {
     fp_conversion_map[a] = ex;
-    a = (a*gen) % prime;
+    a = ((unsigned long)a*gen) % prime;
   }
 
   vector<unsigned int> poly_coeff_exponents;
-- 
2.43.0


From 2123fac3feab36c3ef54915bd4266021800b4906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:37 +0000
Subject: [PATCH 10/14] fix: set prime field coefficients of naive Zech counts
 by value

---
 src/curve.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/curve.cc b/src/curve.cc
index 6d64e43..0c68f32 100644
--- a/src/curve.cc
+++ b/src/curve.cc
@@ -466,6 +466,9 @@ count_naive_zech(
     fq_zech_init(a, fq_ctx);
     if ( e == table->prime_power_pred )
       fq_zech_zero(a, fq_ctx);
+    else if ( this->table->is_prime_field() )
+      // without Conway polynomials, generators need not be compatible
+      fq_zech_set_ui(a, this->table->at_nmod(e), fq_ctx);
     else
       fq_zech_pow_ui(a, sub_gen, e, fq_ctx);
     poly_coefficients.push_back(a);
-- 
2.43.0


From 43edec59e68d902fa763e2b4d103a8f3117a2979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:55 +0000
Subject: [PATCH 11/14] fix: count naively over large prime fields, which have
 no Conway polynomial

---
 src/curve.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/curve.cc b/src/curve.cc
index 0c68f32..5daa6dc 100644
--- a/src/curve.cc
+++ b/src/curve.cc
@@ -322,8 +322,12 @@ count_naive_nmod(
   fq_nmod_ctx_t fq_ctx;
   fmpz_t prime_fmpz;
   fmpz_init_set_ui(prime_fmpz, this->table->prime);
-  // use Conway polynomials so that fq_nmod_gen is a multiplicative generator
-  fq_nmod_ctx_init_conway(fq_ctx, prime_fmpz, prime_exponent, ((string)"T").c_str());
+  // use Conway polynomials so that fq_nmod_gen is a multiplicative generator;
+  // they are not available for large primes, where we do not need a generator
+  if ( prime_exponent == 1 )
+    fq_nmod_ctx_init(fq_ctx, prime_fmpz, prime_exponent, ((string)"T").c_str());
+  else
+    fq_nmod_ctx_init_conway(fq_ctx, prime_fmpz, prime_exponent, ((string)"T").c_str());
   fmpz_clear(prime_fmpz);
 
   fq_nmod_t gen;
@@ -343,6 +347,9 @@ count_naive_nmod(
     fq_nmod_init(a, fq_ctx);
     if ( e == table->prime_power_pred )
       fq_nmod_zero(a, fq_ctx);
+    else if ( this->table->is_prime_field() )
+      // without Conway polynomials, generators need not be compatible
+      fq_nmod_set_ui(a, this->table->at_nmod(e), fq_ctx);
     else
       fq_nmod_pow_ui(a, sub_gen, e, fq_ctx);
     poly_coefficients.push_back(a);
@@ -394,7 +401,10 @@ count_naive_nmod(
   fq_nmod_one(x, fq_ctx);
   for ( int ix = 0; ix < prime_power_pred; ++ix ) {
     update_count();
-    fq_nmod_mul(x, x, gen, fq_ctx);
+    if ( prime_exponent == 1 )
+      fq_nmod_set_ui(x, ix + 2, fq_ctx);
+    else
+      fq_nmod_mul(x, x, gen, fq_ctx);
   }
 
 
-- 
2.43.0


From 53dcaedc105db28e729df97293eb52e0dc6d0a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:00 +0000
Subject: [PATCH 12/14] fix: hycu-mpi ends all processes when the master
 refuses the configuration

---
 src/executables/mpi.cc | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/executables/mpi.cc b/src/executables/mpi.cc
index 437f77b..fc5a5c9 100644
--- a/src/executables/mpi.cc
+++ b/src/executables/mpi.cc
@@ -57,6 +57,14 @@ main(
     return main_mpi_worker(mpi_world);
 
 
+  // all other processes are waiting for the initialization of the worker pool,
+  // and would go on doing so
+  auto leave_early = [](int status) {
+      mpi::environment::abort(status);
+      return status;
+    };
+
+
   popt::options_description visible_options("Available options"), all_options;
   popt::positional_options_description positional_options;
 
@@ -85,31 +93,31 @@ main(
 
   if ( options_map.count("help") ) {
     cerr << visible_options;
-    return 0;
+    return leave_early(0);
   }
 
   if ( !options_map.count("config-file") ) {
     cerr << "configuration file required" << endl;
-    return 1;
+    return leave_early(1);
   }
 
   if ( !options_map.count("output-path") ) {
     cerr << "output path required" << endl;
-    return 1;
+    return leave_early(1);
   }
 
 
   path output_path(options_map["output-path"].as<string>());
   if ( !( is_directory(output_path) || create_directories(output_path) ) ) {
     cerr << "could not create output path" << endl;
-    return 1;
+    return leave_early(1);
   }
 
 
   path config_file(options_map["config-file"].as<string>());
   if ( !is_regular_file(config_file) ) {
     cerr << "could not find configuration file or it is not a regular file" << endl;
-    return 1;
+    return leave_early(1);
   }
   auto config_yaml = YAML::LoadFile(config_file.native());
 
@@ -123,7 +131,7 @@ main(
       store_type = StoreType::EC;
     else {
       cerr << "Invalid store type given" << endl;
-      return 1;
+      return leave_early(1);
     }
   }
 
-- 
2.43.0


From 4dd0f45d263ca3e3bcacf7e3152cd264c36bec68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:53 +0000
Subject: [PATCH 13/14] fix: FLINT's generic rings are set up before there are
 several threads

---
 src/threaded/thread_pool.cc | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/threaded/thread_pool.cc b/src/threaded/thread_pool.cc
index a116eb1..327796f 100644
--- a/src/threaded/thread_pool.cc
+++ b/src/threaded/thread_pool.cc
@@ -24,6 +24,11 @@
 #include <vector>
 #include <sstream>
 #include <tuple>
+#include <flint/flint.h>
+#include <flint/fmpz.h>
+#if __FLINT_VERSION >= 3
+#include <flint/gr.h>
+#endif
 
 #include "threaded/thread_pool.hh"
 #include "opencl/interface.hh"
@@ -32,6 +37,28 @@
 using namespace std;
 
 
+// FLINT 3 sets up the generic rings that implement its polynomials over finite
+// fields at their first use and without any synchronization. Threads that do so
+// at the same time would compute with incomplete rings.
+static
+void
+initialize_flint_rings()
+{
+#if __FLINT_VERSION >= 3
+  gr_ctx_t ctx;
+  fmpz_t prime;
+  fmpz_init_set_ui(prime, 3);
+
+  gr_ctx_init_nmod(ctx, 3);
+  gr_ctx_clear(ctx);
+  gr_ctx_init_fq_nmod(ctx, prime, 2, "T");
+  gr_ctx_clear(ctx);
+
+  fmpz_clear(prime);
+#endif
+}
+
+
 void
 ThreadPool::
 spark_threads(
@@ -44,6 +71,8 @@ spark_threads(
     throw;
   }
 
+  initialize_flint_rings();
+
 
   if ( nmb_working_threads < 0 )
     nmb_working_threads = thread::hardware_concurrency();
-- 
2.43.0


From 74e40af4c6fd01e741d228cb72f16361a95e06f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:46 +0000
Subject: [PATCH 14/14] fix: read package bounds of records in their whole
 range

---
 src/store/file_store.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/file_store.cc b/src/store/file_store.cc
index f4830be..d184e19 100644
--- a/src/store/file_store.cc
+++ b/src/store/file_store.cc
@@ -119,7 +119,7 @@ extract(
     vuu_block & block
     )
 {
-  int lbd, ubd;
+  unsigned int lbd, ubd;
 
   string line;
   getline(stream, line);
-- 
2.43.0

