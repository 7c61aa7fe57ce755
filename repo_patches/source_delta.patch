From 16e08cc99b50ae498e6fd6c07a6fb910cf2cc647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:07 +0000
Subject: [PATCH 01/36] fix: a refused IoService::Stop leaves the thread count
 unchanged

---
 include/maidsafe/common/asio_service.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/maidsafe/common/asio_service.h b/include/maidsafe/common/asio_service.h
index e99028d..3345927 100644
--- a/include/maidsafe/common/asio_service.h
+++ b/include/maidsafe/common/asio_service.h
@@ -83,7 +83,6 @@ IoService<IoServiceType>::IoService(size_t thread_count)
 
 template <typename IoServiceType>
 void IoService<IoServiceType>::Stop() {
-  thread_count_ = 0U;
   std::lock_guard<std::mutex> lock{mutex_};
   if (!work_)
     return;
@@ -92,6 +91,7 @@ void IoService<IoServiceType>::Stop() {
       BOOST_THROW_EXCEPTION(MakeError(CommonErrors::cannot_invoke_from_this_thread));
   }
 
+  thread_count_ = 0U;
   work_.reset();
 
   for (auto& asio_thread : threads_) {
-- 
2.43.0


From fed22bb0d6cc105b55000d3589415377b0c95ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:13 +0000
Subject: [PATCH 02/36] fix: hex decoding rejects characters that are not hex
 digits instead of reading outside its lookup table

---
 src/maidsafe/common/encode.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/maidsafe/common/encode.cc b/src/maidsafe/common/encode.cc
index 9667dc5..670e22f 100644
--- a/src/maidsafe/common/encode.cc
+++ b/src/maidsafe/common/encode.cc
@@ -45,6 +45,10 @@ T Decode(const std::string& hex_input) {
   if (size % 2)  // Sanity check
     BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_conversion));
 
+  if (hex_input.find_first_not_of(reinterpret_cast<const char*>(detail::alphabet)) !=
+      std::string::npos)
+    BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_conversion));
+
   T non_hex_output(size / 2, 0);
   for (size_t i(0), j(0); i != size / 2; ++i) {
     non_hex_output[i] = (detail::lookup[static_cast<int>(hex_input[j++])] << 4);
-- 
2.43.0


From 05617528227dc9dede574f95348b0540eb588309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:16 +0000
Subject: [PATCH 03/36] fix: base64 decoding rejects a pad character followed
 by another character

---
 src/maidsafe/common/encode.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/maidsafe/common/encode.cc b/src/maidsafe/common/encode.cc
index 670e22f..fbcc177 100644
--- a/src/maidsafe/common/encode.cc
+++ b/src/maidsafe/common/encode.cc
@@ -112,6 +112,8 @@ T Decode(const std::string& base64_input) {
             decoded_bytes.push_back((temp >> 8) & 0x000000FF);
             return decoded_bytes;
           case 2:  // Two pad characters
+            if (*(cursor + 1) != detail::pad_character)
+              BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_conversion));
             decoded_bytes.push_back((temp >> 10) & 0x000000FF);
             return decoded_bytes;
           default:
-- 
2.43.0


From 89494b27a98a6d3a80cae1ecb6dc1bf07094e2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:30 +0000
Subject: [PATCH 04/36] fix: a BoundedString streams its current value in debug
 builds too

---
 include/maidsafe/common/bounded_string.h | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/include/maidsafe/common/bounded_string.h b/include/maidsafe/common/bounded_string.h
index fdd25d0..1578590 100644
--- a/include/maidsafe/common/bounded_string.h
+++ b/include/maidsafe/common/bounded_string.h
@@ -299,12 +299,8 @@ template <typename Elem, typename Traits, std::size_t min, std::size_t max, type
 std::basic_ostream<Elem, Traits>& operator<<(
     std::basic_ostream<Elem, Traits>& ostream,
     const BoundedString<min, max, String>& bounded_string) {
-#ifdef NDEBUG
   ostream << (bounded_string.IsInitialised() ? hex::Substr(bounded_string.string_)
                                              : std::string("Invalid string"));
-#else
-  ostream << bounded_string.debug_string_;
-#endif
   return ostream;
 }
 
-- 
2.43.0


From 4c952eec99b821f7c0a0e7132043f6bb61f00d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:09 +0000
Subject: [PATCH 05/36] fix: MakeIdentity refuses a binary string that is not
 512 characters long

---
 src/maidsafe/common/identity.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/maidsafe/common/identity.cc b/src/maidsafe/common/identity.cc
index 5c3d81c..cc29056 100644
--- a/src/maidsafe/common/identity.cc
+++ b/src/maidsafe/common/identity.cc
@@ -96,6 +96,8 @@ std::string Encode(const Identity& id) { return Encode(id.string()); }
 
 Identity MakeIdentity(const binary::String& id) {
   try {
+    if (id->size() != 8 * identity_size)
+      BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_identity));
     std::vector<byte> raw_id(identity_size, 0);
     for (size_t i = 0; i < identity_size; ++i) {
       std::bitset<8> temp(id->substr(i * 8, 8));
-- 
2.43.0


From d9e2363213d4ac209795823694bfd9c0313fc0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:02 +0000
Subject: [PATCH 06/36] fix: SipHash counts each remainder byte once in the
 length block

---
 src/maidsafe/common/hash/algorithms/siphash.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maidsafe/common/hash/algorithms/siphash.cc b/src/maidsafe/common/hash/algorithms/siphash.cc
index 9bba844..e139092 100644
--- a/src/maidsafe/common/hash/algorithms/siphash.cc
+++ b/src/maidsafe/common/hash/algorithms/siphash.cc
@@ -104,7 +104,7 @@ std::uint64_t FinalizeInternal(std::uint64_t v0, std::uint64_t v1, std::uint64_t
   //
   // Compress remainder bytes
   //
-  std::uint64_t b = (static_cast<std::uint64_t>(b_in + inlen)) << 56;
+  std::uint64_t b = (static_cast<std::uint64_t>(b_in)) << 56;
 
   switch (inlen & 7) {
     case 7:
-- 
2.43.0


From 162475e1b8ca0606d3836e5445a628b299641f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:09 +0000
Subject: [PATCH 07/36] fix: LruCache with capacity 0 holds nothing instead of
 evicting from an empty list

---
 include/maidsafe/common/containers/lru_cache.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/maidsafe/common/containers/lru_cache.h b/include/maidsafe/common/containers/lru_cache.h
index 92fed95..bf8c918 100644
--- a/include/maidsafe/common/containers/lru_cache.h
+++ b/include/maidsafe/common/containers/lru_cache.h
@@ -98,7 +98,8 @@ class LruCacheBase {
   using Storage = typename StorageType<KeyType, T>::type;
 
   typename KeyOrder<KeyType>::iterator PrepareToAdd(const KeyType& key) {
-    if (storage_.find(key) != storage_.end())
+    // Nothing can be held if there is no capacity
+    if (capacity_ == 0 || storage_.find(key) != storage_.end())
       return std::end(key_order_);
     // Check if we should evict any entries because of size
     if (storage_.size() == capacity_)
-- 
2.43.0


From b775242213315bb0eeb7be8ef93d0f77c9492960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:12 +0000
Subject: [PATCH 08/36] fix: StructuredDataVersions' swap resets the parents of
 orphans, which it only compared

---
 src/maidsafe/common/data_types/structured_data_versions.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/data_types/structured_data_versions.cc b/src/maidsafe/common/data_types/structured_data_versions.cc
index 4b3c0a2..86e3d3b 100644
--- a/src/maidsafe/common/data_types/structured_data_versions.cc
+++ b/src/maidsafe/common/data_types/structured_data_versions.cc
@@ -757,11 +757,11 @@ void swap(StructuredDataVersions& lhs, StructuredDataVersions& rhs) MAIDSAFE_NOE
   swap(lhs.orphans_, rhs.orphans_);
   for (const auto& lhs_orphans : lhs.orphans_) {
     for (auto lhs_orphan : lhs_orphans.second)
-      lhs_orphan->second->parent == std::end(lhs.versions_);
+      lhs_orphan->second->parent = std::end(lhs.versions_);
   }
   for (const auto& rhs_orphans : rhs.orphans_) {
     for (auto rhs_orphan : rhs_orphans.second)
-      rhs_orphan->second->parent == std::end(rhs.versions_);
+      rhs_orphan->second->parent = std::end(rhs.versions_);
   }
 }
 
-- 
2.43.0


From 87a0d8c9fd9137e08928444ee3cfc2a8b92e928c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:12 +0000
Subject: [PATCH 09/36] fix: StructuredDataVersions at its branch limit refuses
 a new root and accepts the root's parent

---
 .../common/data_types/structured_data_versions.h     |  2 +-
 .../common/data_types/structured_data_versions.cc    | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/maidsafe/common/data_types/structured_data_versions.h b/include/maidsafe/common/data_types/structured_data_versions.h
index 6458091..4ee77e7 100644
--- a/include/maidsafe/common/data_types/structured_data_versions.h
+++ b/include/maidsafe/common/data_types/structured_data_versions.h
@@ -244,7 +244,7 @@ class StructuredDataVersions {
   void CheckForUnorphaning(Version& version, bool& unorphans_existing_root,
                            size_t& unorphan_count) const;
   std::future<void> CheckVersionNotInBranch(VersionsItr itr, const VersionName& version) const;
-  void CheckBranchCount(const Version& version, bool is_orphan, size_t unorphaned_count,
+  void CheckBranchCount(const Version& version, bool is_root, bool is_orphan,
                         bool& erase_existing_root) const;
   boost::optional<VersionName> Insert(const Version& version, bool is_root, bool is_orphan,
                                       const VersionName& old_version, bool unorphans_existing_root,
diff --git a/src/maidsafe/common/data_types/structured_data_versions.cc b/src/maidsafe/common/data_types/structured_data_versions.cc
index 86e3d3b..40c4fc6 100644
--- a/src/maidsafe/common/data_types/structured_data_versions.cc
+++ b/src/maidsafe/common/data_types/structured_data_versions.cc
@@ -346,7 +346,7 @@ boost::optional<StructuredDataVersions::VersionName> StructuredDataVersions::Put
   }
 
   // Handle case where we're about to exceed 'max_branches_'.
-  CheckBranchCount(version, is_orphan, unorphan_count, erase_existing_root);
+  CheckBranchCount(version, is_root, is_orphan, erase_existing_root);
 
   // Finally, safe to now add details
   return Insert(version, is_root, is_orphan, old_version, unorphans_existing_root, unorphan_count,
@@ -442,13 +442,13 @@ std::future<void> StructuredDataVersions::CheckVersionNotInBranch(
   });
 }
 
-void StructuredDataVersions::CheckBranchCount(const Version& version, bool is_orphan,
-                                              size_t unorphaned_count,
+void StructuredDataVersions::CheckBranchCount(const Version& version, bool is_root, bool is_orphan,
                                               bool& erase_existing_root) const {
-  if (AtBranchesLimit() && unorphaned_count == 0) {
-    if (is_orphan || !version.second->parent->second->children.empty()) {
+  // If 'version' already has children, it has unorphaned them and won't be a tip of tree.
+  if (AtBranchesLimit() && version.second->children.empty()) {
+    if (is_root || is_orphan || !version.second->parent->second->children.empty()) {
       // We're going to exceed limit - see if deleting 'root_' helps
-      bool root_is_tip_of_tree(root_.second != std::end(versions_) &&
+      bool root_is_tip_of_tree(!is_root && root_.second != std::end(versions_) &&
                                root_.second->second->children.empty());
       if (root_is_tip_of_tree)
         erase_existing_root = true;
-- 
2.43.0


From 510bc6befad7c78b571eed63027cd34d203f82ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:12 +0000
Subject: [PATCH 10/36] fix: StructuredDataVersions looks at every version of a
 branch for a circular chain

---
 src/maidsafe/common/data_types/structured_data_versions.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/data_types/structured_data_versions.cc b/src/maidsafe/common/data_types/structured_data_versions.cc
index 40c4fc6..c0933bf 100644
--- a/src/maidsafe/common/data_types/structured_data_versions.cc
+++ b/src/maidsafe/common/data_types/structured_data_versions.cc
@@ -427,11 +427,11 @@ std::future<void> StructuredDataVersions::CheckVersionNotInBranch(
   return std::async([this, itr, &version]() {
     VersionsItr versions_itr(itr);
     while (versions_itr != std::end(versions_)) {
+      if (versions_itr->first == version)
+        BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
       auto child_itr(std::begin(versions_itr->second->children));
       if (child_itr == std::end(versions_itr->second->children))
         return;
-      if ((*child_itr)->first == version)
-        BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
       std::vector<std::future<void>> check_futures;
       while (++child_itr != std::end(versions_itr->second->children))
         check_futures.emplace_back(CheckVersionNotInBranch(*child_itr, version));
-- 
2.43.0


From 6588bd75e719e33b9574d90866f335eb4d0d6209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:12 +0000
Subject: [PATCH 11/36] fix: StructuredDataVersions replaces a lone root by the
 lowest orphan, as documented

---
 .../common/data_types/structured_data_versions.cc        | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/data_types/structured_data_versions.cc b/src/maidsafe/common/data_types/structured_data_versions.cc
index c0933bf..f8f21d2 100644
--- a/src/maidsafe/common/data_types/structured_data_versions.cc
+++ b/src/maidsafe/common/data_types/structured_data_versions.cc
@@ -558,8 +558,13 @@ void StructuredDataVersions::ReplaceRoot() {
 
 void StructuredDataVersions::ReplaceRootFromOrphans() {
   assert(!orphans_.empty());
-  OrphanItr orphan_itr(
-      std::make_pair(std::begin(orphans_), std::begin(std::begin(orphans_)->second)));
+  // Each set of orphans is sorted, so only its first element needs considered.
+  auto lowest_itr(std::min_element(std::begin(orphans_), std::end(orphans_),
+                                   [](const Orphans::value_type& lhs,
+                                      const Orphans::value_type& rhs) {
+    return (*std::begin(lhs.second))->first < (*std::begin(rhs.second))->first;
+  }));
+  OrphanItr orphan_itr(std::make_pair(lowest_itr, std::begin(lowest_itr->second)));
   versions_.erase(root_.second);
   root_.first = orphan_itr.first->first;
   root_.second = *orphan_itr.second;
-- 
2.43.0


From 9c47beab2cebc0f42267911d5b74387d027f583f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:12 +0000
Subject: [PATCH 12/36] fix: StructuredDataVersions::ApplySerialised works on
 an empty container

---
 src/maidsafe/common/data_types/structured_data_versions.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/data_types/structured_data_versions.cc b/src/maidsafe/common/data_types/structured_data_versions.cc
index f8f21d2..c754884 100644
--- a/src/maidsafe/common/data_types/structured_data_versions.cc
+++ b/src/maidsafe/common/data_types/structured_data_versions.cc
@@ -281,7 +281,8 @@ void StructuredDataVersions::BranchToCereal(
 
 void StructuredDataVersions::ApplySerialised(const serialised_type& serialised_data_versions) {
   StructuredDataVersions new_info(serialised_data_versions);
-  ApplyBranch(root_.first, root_.second, new_info);
+  if (root_.second != std::end(versions_))
+    ApplyBranch(root_.first, root_.second, new_info);
   for (const auto& orphan_set : orphans_) {
     for (const auto& orphan : orphan_set.second)
       ApplyBranch(orphan_set.first, orphan, new_info);
-- 
2.43.0


From 2b13774332a9f29f847d79990b936842a691cb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:12 +0000
Subject: [PATCH 13/36] fix: parsing StructuredDataVersions rejects a branch
 without versions

---
 src/maidsafe/common/data_types/structured_data_versions.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/data_types/structured_data_versions.cc b/src/maidsafe/common/data_types/structured_data_versions.cc
index c754884..1eaff33 100644
--- a/src/maidsafe/common/data_types/structured_data_versions.cc
+++ b/src/maidsafe/common/data_types/structured_data_versions.cc
@@ -175,7 +175,8 @@ void StructuredDataVersions::ValidateLimits() const {
 void StructuredDataVersions::BranchFromCereal(
     VersionsItr parent_itr, detail::StructuredDataVersionsCereal& serialised_versions,
     std::size_t& serialised_branch_index) {
-  if (serialised_branch_index >= serialised_versions.branches.size())
+  if (serialised_branch_index >= serialised_versions.branches.size() ||
+      serialised_versions.branches[serialised_branch_index].names.empty())
     BOOST_THROW_EXCEPTION(MakeError(CommonErrors::parsing_error));
 
   // Handle first version in branch
-- 
2.43.0


From 85b01d5bde609c3e58b47589e395089f37d082f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:02 +0000
Subject: [PATCH 14/36] fix: Menu::Run of a menu without items does not leave
 the top level

---
 src/maidsafe/common/menu.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maidsafe/common/menu.cc b/src/maidsafe/common/menu.cc
index c531e8e..d4c37a3 100644
--- a/src/maidsafe/common/menu.cc
+++ b/src/maidsafe/common/menu.cc
@@ -46,7 +46,7 @@ int Menu::Run() {
       if (clear_cli) {
         cli_.Clear();
         clear_cli = false;
-        if (current_item_->HasNoChildren())
+        if (current_item_->HasNoChildren() && current_item_->kParent_)
           current_item_ = current_item_->kParent_;
         ShowOptions();
       }
-- 
2.43.0


From ae29e943b78b4354e9ce55a133670f416d68c0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:02 +0000
Subject: [PATCH 15/36] fix: Menu::Run ends with an error when its input has
 ended instead of asking for ever

---
 src/maidsafe/common/menu.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/maidsafe/common/menu.cc b/src/maidsafe/common/menu.cc
index d4c37a3..d131b1d 100644
--- a/src/maidsafe/common/menu.cc
+++ b/src/maidsafe/common/menu.cc
@@ -60,6 +60,8 @@ int Menu::Run() {
           current_item_ = current_item_->Child(result - 1);
         }
       } catch (const std::exception&) {
+        if (!std::cin)  // No further choice can be read.
+          throw;
         TLOG(kYellow) << "Invalid choice\n";
         continue;
       }
-- 
2.43.0


From e5b3c02e4bec6e4f423d2c4375fd25ac2045947e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:35 +0000
Subject: [PATCH 16/36] fix: CLI::Echo does not use terminal attributes it
 could not get

---
 src/maidsafe/common/cli.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/cli.cc b/src/maidsafe/common/cli.cc
index aa0cc9e..e6daa16 100644
--- a/src/maidsafe/common/cli.cc
+++ b/src/maidsafe/common/cli.cc
@@ -49,7 +49,8 @@ void CLI::Echo(bool enable) const {
   SetConsoleMode(hStdin, mode);
 #else
   struct termios tty;
-  tcgetattr(STDIN_FILENO, &tty);
+  if (tcgetattr(STDIN_FILENO, &tty) != 0)
+    return;  // There is no terminal.
   if (!enable)
     tty.c_lflag &= ~ECHO;
   else
-- 
2.43.0


From eb2d3a646d6edaf021abbcfe2d803315730d5ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:54 +0000
Subject: [PATCH 17/36] fix: a Transaction starts as not committed, so that
 leaving it rolls back

---
 src/maidsafe/common/sqlite3_wrapper.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/sqlite3_wrapper.cc b/src/maidsafe/common/sqlite3_wrapper.cc
index 1e34bfd..532510a 100644
--- a/src/maidsafe/common/sqlite3_wrapper.cc
+++ b/src/maidsafe/common/sqlite3_wrapper.cc
@@ -61,7 +61,8 @@ void Database::CheckPoint() {
 }
 
 
-Transaction::Transaction(Database& database_in) : kAttempts(200), database(database_in) {
+Transaction::Transaction(Database& database_in)
+    : kAttempts(200), committed(false), database(database_in) {
   std::string query("BEGIN IMMEDIATE TRANSACTION");  // immediate or exclusive transaction
   for (int i(0); i != kAttempts; ++i) {
     try {
-- 
2.43.0


From d712cfbdfd07f6e665619fe00f9ad0aa99c8d3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:54 +0000
Subject: [PATCH 18/36] fix: Database closes the connection of a database it
 could not open

---
 src/maidsafe/common/sqlite3_wrapper.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/maidsafe/common/sqlite3_wrapper.cc b/src/maidsafe/common/sqlite3_wrapper.cc
index 532510a..3cdb290 100644
--- a/src/maidsafe/common/sqlite3_wrapper.cc
+++ b/src/maidsafe/common/sqlite3_wrapper.cc
@@ -37,6 +37,7 @@ Database::Database(const boost::filesystem::path& filename, Mode mode)
   auto flags = static_cast<int>(mode);
   if (sqlite3_open_v2(filename.string().c_str(), &database, flags, NULL) != SQLITE_OK) {
     LOG(kError) << "Could not open DB at: " << filename << ".  Error: " << sqlite3_errmsg(database);
+    sqlite3_close(database);
     BOOST_THROW_EXCEPTION(MakeError(CommonErrors::db_not_present));
   }
   assert(sqlite3_threadsafe());
-- 
2.43.0


From d27df9f73c97a90c60b985588946f8b982a55346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:54 +0000
Subject: [PATCH 19/36] fix: error messages of SQLite are freed when a setting
 is refused or the file is no database

---
 src/maidsafe/common/sqlite3_wrapper.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/maidsafe/common/sqlite3_wrapper.cc b/src/maidsafe/common/sqlite3_wrapper.cc
index 3cdb290..8ba4467 100644
--- a/src/maidsafe/common/sqlite3_wrapper.cc
+++ b/src/maidsafe/common/sqlite3_wrapper.cc
@@ -41,10 +41,9 @@ Database::Database(const boost::filesystem::path& filename, Mode mode)
     BOOST_THROW_EXCEPTION(MakeError(CommonErrors::db_not_present));
   }
   assert(sqlite3_threadsafe());
-  char* error_message = 0;
-  sqlite3_exec(database, "PRAGMA synchronous = OFF", NULL, 0, &error_message);
-  sqlite3_exec(database, "PRAGMA journal_mode = WAL", NULL, 0, &error_message);
-  sqlite3_exec(database, "PRAGMA wal_autocheckpoint = 0", NULL, 0, &error_message);
+  sqlite3_exec(database, "PRAGMA synchronous = OFF", NULL, 0, NULL);
+  sqlite3_exec(database, "PRAGMA journal_mode = WAL", NULL, 0, NULL);
+  sqlite3_exec(database, "PRAGMA wal_autocheckpoint = 0", NULL, 0, NULL);
   sqlite3_busy_timeout(database, 250);
   insertlimit = sqlite3_limit(database, SQLITE_LIMIT_VARIABLE_NUMBER, -1);
 }
@@ -122,6 +121,7 @@ void Transaction::Execute(const std::string& query) {
       BOOST_THROW_EXCEPTION(MakeError(CommonErrors::db_busy));
     } else if (result == SQLITE_NOTADB) {
       LOG(kError) << "DB not present";
+      sqlite3_free(error_message);
       BOOST_THROW_EXCEPTION(MakeError(CommonErrors::db_not_present));
     } else {
       LOG(kError) << "SQL error: " << error_message << ".  Return value: " << result
-- 
2.43.0


From f8dea5612ae5ac1623bf3112b65f490714f78521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:54 +0000
Subject: [PATCH 20/36] fix: BindBlob binds an empty blob as one, not as NULL

---
 src/maidsafe/common/sqlite3_wrapper.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/sqlite3_wrapper.cc b/src/maidsafe/common/sqlite3_wrapper.cc
index 8ba4467..8f72547 100644
--- a/src/maidsafe/common/sqlite3_wrapper.cc
+++ b/src/maidsafe/common/sqlite3_wrapper.cc
@@ -170,7 +170,9 @@ void Statement::BindText(int row_index, const std::string& text) {
 
 void Statement::BindBlob(int row_index, const SerialisedData& blob) {
   assert(blob.size() < std::numeric_limits<int>::max());
-  auto return_value = sqlite3_bind_blob(statement, row_index, &blob[0],
+  // A null pointer would bind NULL rather than an empty blob.
+  const void* data = blob.empty() ? "" : static_cast<const void*>(blob.data());
+  auto return_value = sqlite3_bind_blob(statement, row_index, data,
                                         static_cast<int>(blob.size()),
                                         reinterpret_cast<sqlite3_destructor_type>(-1));
                                         // SQLITE_TRANSIENT macro replaced with C++ cast
-- 
2.43.0


From 6acb1d4ce9dbde787e5c28ed961f1c9797e95c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:08 +0000
Subject: [PATCH 21/36] fix: ReadFile reports a file it could not open or read
 whole

---
 src/maidsafe/common/utils.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/maidsafe/common/utils.cc b/src/maidsafe/common/utils.cc
index dd98c7d..517b675 100644
--- a/src/maidsafe/common/utils.cc
+++ b/src/maidsafe/common/utils.cc
@@ -315,6 +315,10 @@ boost::expected<std::vector<byte>, common_error> ReadFile(const fs::path& file_p
 
     std::ifstream file_in(file_path.c_str(), std::ios::in | std::ios::binary);
     file_in.read(reinterpret_cast<char*>(&file_content[0]), file_size);
+    if (!file_in) {
+      LOG(kError) << "Failed to read file " << file_path;
+      return boost::make_unexpected(MakeError(CommonErrors::filesystem_io_error));
+    }
     file_in.close();
     return file_content;
   }
-- 
2.43.0


From 3219a1b030e83cf2f837a087b29c3f9759f3065c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:08 +0000
Subject: [PATCH 22/36] fix: WriteFile reports content it could not write

---
 src/maidsafe/common/utils.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/maidsafe/common/utils.cc b/src/maidsafe/common/utils.cc
index 517b675..a24e681 100644
--- a/src/maidsafe/common/utils.cc
+++ b/src/maidsafe/common/utils.cc
@@ -342,6 +342,10 @@ bool WriteFile(const boost::filesystem::path& file_path, const std::vector<byte>
     }
     file_out.write(reinterpret_cast<const char*>(content.data()), content.size());
     file_out.close();
+    if (!file_out.good()) {
+      LOG(kError) << "Failed to write file " << file_path;
+      return false;
+    }
   } catch (const std::exception& e) {
     LOG(kError) << "Failed to write file " << file_path << ": " << boost::diagnostic_information(e);
     return false;
-- 
2.43.0


From 7f62859566273d9bc05e94cc45ec3554fbe26d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:09 +0000
Subject: [PATCH 23/36] fix: the seed of the random number generator is read
 under its lock

---
 src/maidsafe/common/utils.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/utils.cc b/src/maidsafe/common/utils.cc
index a24e681..965fa7f 100644
--- a/src/maidsafe/common/utils.cc
+++ b/src/maidsafe/common/utils.cc
@@ -167,7 +167,10 @@ std::mutex& random_number_generator_mutex() {
 
 #ifdef TESTING
 
-uint32_t random_number_generator_seed() { return rng_seed(); }
+uint32_t random_number_generator_seed() {
+  std::lock_guard<std::mutex> lock(random_number_generator_mutex());
+  return rng_seed();
+}
 
 void set_random_number_generator_seed(uint32_t seed) {
   std::lock_guard<std::mutex> lock(random_number_generator_mutex());
-- 
2.43.0


From 7cc5d7935d0ff213db1fb4387c7c7630739c5b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:09 +0000
Subject: [PATCH 24/36] fix: random sizes from the whole range of uint32_t

---
 src/maidsafe/common/utils.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/maidsafe/common/utils.cc b/src/maidsafe/common/utils.cc
index 965fa7f..93d89e3 100644
--- a/src/maidsafe/common/utils.cc
+++ b/src/maidsafe/common/utils.cc
@@ -151,6 +151,11 @@ IntType RandomInt() {
   return distribution(detail::random_number_generator());
 }
 
+// Between 'min' and 'max' inclusive, also if that is every value.
+uint32_t RandomSize(uint32_t min, uint32_t max) {
+  return static_cast<uint32_t>(RandomUint32() % (static_cast<uint64_t>(max) - min + 1)) + min;
+}
+
 }  // unnamed namespace
 
 namespace detail {
@@ -260,13 +265,13 @@ uint32_t RandomUint32() { return RandomInt<uint32_t>(); }
 std::string RandomString(size_t size) { return GetRandomString<std::string>(size); }
 
 std::string RandomString(uint32_t min, uint32_t max) {
-  return GetRandomString<std::string>((RandomUint32() % (max - min + 1)) + min);
+  return GetRandomString<std::string>(RandomSize(min, max));
 }
 
 std::vector<byte> RandomBytes(size_t size) { return GetRandomString<std::vector<byte>>(size); }
 
 std::vector<byte> RandomBytes(uint32_t min, uint32_t max) {
-  return GetRandomString<std::vector<byte>>((RandomUint32() % (max - min + 1)) + min);
+  return GetRandomString<std::vector<byte>>(RandomSize(min, max));
 }
 
 std::string RandomAlphaNumericString(size_t size) {
@@ -274,7 +279,7 @@ std::string RandomAlphaNumericString(size_t size) {
 }
 
 std::string RandomAlphaNumericString(uint32_t min, uint32_t max) {
-  return GetRandomAlphaNumericString<std::string>((RandomUint32() % (max - min + 1)) + min);
+  return GetRandomAlphaNumericString<std::string>(RandomSize(min, max));
 }
 
 std::vector<byte> RandomAlphaNumericBytes(size_t size) {
@@ -282,7 +287,7 @@ std::vector<byte> RandomAlphaNumericBytes(size_t size) {
 }
 
 std::vector<byte> RandomAlphaNumericBytes(uint32_t min, uint32_t max) {
-  return GetRandomAlphaNumericString<std::vector<byte>>((RandomUint32() % (max - min + 1)) + min);
+  return GetRandomAlphaNumericString<std::vector<byte>>(RandomSize(min, max));
 }
 
 std::string WstringToString(const std::wstring& input) {
-- 
2.43.0


From dcbc1f23c523fdfdd57ee2eb0ad9e958b55ec5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:05 +0000
Subject: [PATCH 25/36] fix: VersionToInt refuses malformed and oversized
 versions

---
 src/maidsafe/common/utils.cc | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/maidsafe/common/utils.cc b/src/maidsafe/common/utils.cc
index 93d89e3..15abbb5 100644
--- a/src/maidsafe/common/utils.cc
+++ b/src/maidsafe/common/utils.cc
@@ -220,23 +220,29 @@ asio::ip::address GetLocalIp(asio::ip::udp::endpoint peer_endpoint) {
 }
 
 int VersionToInt(const std::string& version) {
-  boost::tokenizer<boost::char_separator<char>> tokens(version, boost::char_separator<char>("."));
+  if (version.find_first_not_of("0123456789.") != std::string::npos) {
+    LOG(kWarning) << "Invalid version " << version;
+    return kInvalidVersion;
+  }
+
+  boost::tokenizer<boost::char_separator<char>> tokens(
+      version, boost::char_separator<char>(".", "", boost::keep_empty_tokens));
   if (std::distance(tokens.begin(), tokens.end()) != 3)
     return kInvalidVersion;
 
   auto itr(tokens.begin());
 
-  int16_t major_version(0), minor_version(0), patch_level(0);
+  int major_version(0), minor_version(0), patch_level(0);
   try {
-    major_version = static_cast<int16_t>(std::stoi(*(itr++)));
+    major_version = std::stoi(*(itr++));
 
-    minor_version = static_cast<int16_t>(std::stoi(*itr));
+    minor_version = std::stoi(*itr);
     if ((*itr++).size() != 1U) {
       LOG(kWarning) << "Invalid minor version " << version;
       return kInvalidVersion;
     }
 
-    patch_level = static_cast<int16_t>(std::stoi(*itr));
+    patch_level = std::stoi(*itr);
     if ((*itr++).size() != 3U) {
       LOG(kWarning) << "Invalid patch level " << version;
       return kInvalidVersion;
@@ -246,7 +252,7 @@ int VersionToInt(const std::string& version) {
     return kInvalidVersion;
   }
 
-  if (major_version < 0 || minor_version < 0 || patch_level < 0) {
+  if (major_version > (std::numeric_limits<int>::max() - 9999) / 10000) {
     LOG(kWarning) << "Invalid version " << version;
     return kInvalidVersion;
   }
-- 
2.43.0


From 49b0cdd6c1f46001a04630d3f3ef36a99a8cf515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:10 +0000
Subject: [PATCH 26/36] fix: recovering from no pieces or from pieces too short
 is refused

---
 src/maidsafe/common/crypto.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/maidsafe/common/crypto.cc b/src/maidsafe/common/crypto.cc
index 62475c2..8f0aa95 100644
--- a/src/maidsafe/common/crypto.cc
+++ b/src/maidsafe/common/crypto.cc
@@ -53,6 +53,16 @@ void ValidateDispersalArgs(int32_t threshold, int32_t number_of_shares) {
   }
 }
 
+void ValidateDataParts(const DataParts& parts) {
+  // Each part is prefixed with the 4 bytes of its piece number
+  if (parts.empty() || std::any_of(parts.begin(), parts.end(), [](const NonEmptyString& part) {
+        return !part.IsInitialised() || part.size() <= 4;
+      })) {
+    LOG(kError) << "There must be at least one part, and no part can be as short as its prefix.";
+    BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
+  }
+}
+
 }  // unnamed namespace
 
 CryptoPP::RandomNumberGenerator& random_number_generator() {
@@ -192,6 +202,7 @@ DataParts SecretShareData(int32_t threshold, int32_t number_of_shares, const Pla
 }
 
 PlainText SecretRecoverData(const DataParts& parts) {
+  ValidateDataParts(parts);
   size_t num_to_check = parts.size();
   // Safe to subtract 4 since each piece is prefixed with a byte piece number
   auto data_size(num_to_check * parts.front().size());
@@ -248,6 +259,7 @@ DataParts InfoDisperse(int32_t threshold, int32_t number_of_shares, const PlainT
 }
 
 PlainText InfoRetrieve(const DataParts& parts) {
+  ValidateDataParts(parts);
   size_t num_to_check = parts.size();
   // Safe to subtract 4 since each piece is prefixed with a byte piece number
   auto data_size(num_to_check * (parts.front().size() - 4));
-- 
2.43.0


From be468264498a43b28bffa2d0259d71d95bb282b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:16:10 +0000
Subject: [PATCH 27/36] fix: the path of the executable is only read from a
 link that could be read whole

---
 src/maidsafe/common/config.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/config.cc b/src/maidsafe/common/config.cc
index 640d45b..115346c 100644
--- a/src/maidsafe/common/config.cc
+++ b/src/maidsafe/common/config.cc
@@ -72,8 +72,8 @@ void SetThisExecutablePath(const char* const argv[]) {
 #endif
 #ifdef __linux__
     char buffer[PATH_MAX];
-    size_t len = 0;
-    if ((len = readlink("/proc/self/exe", buffer, sizeof(buffer))) > 0) {
+    ssize_t len = readlink("/proc/self/exe", buffer, sizeof(buffer));
+    if (len > 0 && static_cast<size_t>(len) < sizeof(buffer)) {
       buffer[len] = 0;
       path = buffer;
     }
-- 
2.43.0


From d0550421a4581cc1a3201ef5a48ee7574f1b184f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:16:10 +0000
Subject: [PATCH 28/36] fix: a command line keeps a program path that is
 already quoted

---
 src/maidsafe/common/process.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/process.cc b/src/maidsafe/common/process.cc
index 5f234f4..16f2051 100644
--- a/src/maidsafe/common/process.cc
+++ b/src/maidsafe/common/process.cc
@@ -40,8 +40,10 @@ std::string ConcatenateArgs(const std::vector<std::string>& args) {
   if (!args.empty()) {
     // Wrap the first arg (which is the path to the exe) in quotes if it isn't already, in case it
     // contains spaces.
-    if (args[0].front() != '"')
+    if (args[0].compare(0, 1, "\"") != 0)
       result = '"' + args[0] + "\" ";
+    else
+      result = args[0] + ' ';
 
     result += std::accumulate(std::begin(args) + 1, std::end(args), std::string(""),
                               [](const std::string& lhs, const std::string& rhs) {
-- 
2.43.0


From 861145fece00590199ffa148f4d0172f5672a7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:16:10 +0000
Subject: [PATCH 29/36] fix: a process of another user is running

---
 src/maidsafe/common/process.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/process.cc b/src/maidsafe/common/process.cc
index 16f2051..625fb55 100644
--- a/src/maidsafe/common/process.cc
+++ b/src/maidsafe/common/process.cc
@@ -103,7 +103,8 @@ ProcessId GetProcessId() {
 }
 
 bool IsRunning(const ProcessInfo& process_info) {
-  if (kill(process_info, 0) == 0) {
+  // A process which must not be signalled by this one is running too.
+  if (kill(process_info, 0) == 0 || errno == EPERM) {
     return true;
   } else if (errno != ESRCH) {
     LOG(kError) << "Failed to get status of process.  errno: " << errno;
-- 
2.43.0


From 09a8d5c4c937e6a844e5c8241541da8b464b9cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:32:56 +0000
Subject: [PATCH 30/36] fix: the limits of a data buffer are compared under
 both locks

---
 src/maidsafe/common/data_buffer.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/data_buffer.cc b/src/maidsafe/common/data_buffer.cc
index 5d1ccd1..350b035 100644
--- a/src/maidsafe/common/data_buffer.cc
+++ b/src/maidsafe/common/data_buffer.cc
@@ -419,7 +419,9 @@ fs::path DataBuffer::GetFilename(const KeyType& key) const {
 
 void DataBuffer::SetMaxMemoryUsage(MemoryUsage max_memory_usage) {
   {
-    std::lock_guard<std::mutex> memory_store_lock(memory_store_.mutex);
+    std::lock(memory_store_.mutex, disk_store_.mutex);
+    std::lock_guard<std::mutex> memory_store_lock(memory_store_.mutex, std::adopt_lock);
+    std::lock_guard<std::mutex> disk_store_lock(disk_store_.mutex, std::adopt_lock);
     if (max_memory_usage > disk_store_.max) {
       LOG(kError) << "Max memory usage must be <= max disk usage.";
       BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
@@ -432,7 +434,9 @@ void DataBuffer::SetMaxMemoryUsage(MemoryUsage max_memory_usage) {
 void DataBuffer::SetMaxDiskUsage(DiskUsage max_disk_usage) {
   bool increased(false);
   {
-    std::lock_guard<std::mutex> disk_store_lock(disk_store_.mutex);
+    std::lock(memory_store_.mutex, disk_store_.mutex);
+    std::lock_guard<std::mutex> memory_store_lock(memory_store_.mutex, std::adopt_lock);
+    std::lock_guard<std::mutex> disk_store_lock(disk_store_.mutex, std::adopt_lock);
     if (memory_store_.max > max_disk_usage) {
       LOG(kError) << "Max memory usage must be <= max disk usage.";
       BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
-- 
2.43.0


From 04199210dfee7f1b392e025af078a38238940438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:32:56 +0000
Subject: [PATCH 31/36] fix: a data buffer which stops no longer deadlocks

---
 src/maidsafe/common/data_buffer.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/data_buffer.cc b/src/maidsafe/common/data_buffer.cc
index 350b035..68eaabb 100644
--- a/src/maidsafe/common/data_buffer.cc
+++ b/src/maidsafe/common/data_buffer.cc
@@ -136,6 +136,7 @@ std::unique_lock<std::mutex> DataBuffer::StoreInMemory(const KeyType& key,
     WaitForSpaceInMemory(required_space, memory_store_lock);
 
     if (!running_) {
+      memory_store_lock.unlock();  // The worker may need it in order to finish.
       {
         std::lock_guard<std::mutex> worker_lock(worker_mutex_);
         if (worker_.valid())
@@ -166,7 +167,9 @@ void DataBuffer::WaitForSpaceInMemory(uint64_t required_space,
 }
 
 void DataBuffer::StoreOnDisk(const KeyType& key, const NonEmptyString& value,
-                             std::unique_lock<std::mutex>&& disk_store_lock) {
+                             std::unique_lock<std::mutex>&& owned_lock) {
+  // Taken over, so that it is given back whichever way this function is left.
+  std::unique_lock<std::mutex> disk_store_lock(std::move(owned_lock));
   assert(disk_store_lock);
   if (value.string().size() > disk_store_.max) {
     LOG(kError) << "Cannot store " << DebugKeyName(key) << " since its " << value.string().size()
@@ -252,8 +255,13 @@ NonEmptyString DataBuffer::Get(const KeyType& key) {
       return *temp_itr->second;
     disk_store_.cond_var.wait(disk_store_lock, [this, &key]() -> bool {
       auto itr(Find(disk_store_, key));
-      return (itr == disk_store_.index.end() || (*itr).state != StoringState::kStarted);
+      return (itr == disk_store_.index.end() || (*itr).state != StoringState::kStarted ||
+              !running_);
     });
+    if (!running_) {
+      LOG(kError) << "Worker is no longer running.";
+      BOOST_THROW_EXCEPTION(MakeError(CommonErrors::filesystem_io_error));
+    }
     itr = FindAndThrowIfCancelled(key);
   }
   auto result(ReadFile(GetFilename(key)));
-- 
2.43.0


From 16c6c9249fd2e1c56a9466c036a92bdf21f91a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:32:56 +0000
Subject: [PATCH 32/36] fix: deleting by predicate removes the files and gives
 back their space

---
 src/maidsafe/common/data_buffer.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/maidsafe/common/data_buffer.cc b/src/maidsafe/common/data_buffer.cc
index 68eaabb..1804ddf 100644
--- a/src/maidsafe/common/data_buffer.cc
+++ b/src/maidsafe/common/data_buffer.cc
@@ -302,10 +302,15 @@ void DataBuffer::Delete(std::function<bool(const KeyType&)> predicate) {
   }
   std::lock_guard<std::mutex> disk_store_lock(disk_store_.mutex);
   auto before_size(disk_store_.index.size());
-  disk_store_.index.erase(
-      std::remove_if(std::begin(disk_store_.index), std::end(disk_store_.index),
-                     [&](const DiskElement& item) { return predicate(item.key); }),
-      std::end(disk_store_.index));
+  for (auto itr(std::begin(disk_store_.index)); itr != std::end(disk_store_.index);) {
+    if (!predicate(itr->key)) {
+      ++itr;
+      continue;
+    }
+    if (itr->state == StoringState::kCompleted)
+      RemoveFile(itr->key, nullptr);
+    itr = disk_store_.index.erase(itr);
+  }
   if (disk_store_.index.size() != before_size)
     disk_store_.cond_var.notify_all();
 }
-- 
2.43.0


From 359ceb04b6730a99159634dbf91f31b8d1f30894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:32:56 +0000
Subject: [PATCH 33/36] fix: a value deleted while it waits for space is not
 written to disk

---
 src/maidsafe/common/data_buffer.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/data_buffer.cc b/src/maidsafe/common/data_buffer.cc
index 1804ddf..c6e17d9 100644
--- a/src/maidsafe/common/data_buffer.cc
+++ b/src/maidsafe/common/data_buffer.cc
@@ -203,7 +203,7 @@ void DataBuffer::StoreOnDisk(const KeyType& key, const NonEmptyString& value,
 void DataBuffer::WaitForSpaceOnDisk(const KeyType& key, const NonEmptyString* const value,
                                     std::unique_lock<std::mutex>& disk_store_lock,
                                     bool& cancelled) {
-  while (!HasSpace(disk_store_, value->string().size()) && running_) {
+  while (running_) {
     auto itr(Find(disk_store_, key));
     if (itr == disk_store_.index.end()) {
       cancelled = true;
@@ -216,6 +216,9 @@ void DataBuffer::WaitForSpaceOnDisk(const KeyType& key, const NonEmptyString* co
       return;
     }
 
+    if (HasSpace(disk_store_, value->string().size()))
+      return;
+
     if (kPopFunctor_) {
       itr = FindOldestOnDisk();
       assert((*itr).state != StoringState::kStarted);
-- 
2.43.0


From 2ed25fc8c1abe4f2bd65dc6bf2a3d6d622d14040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:40 +0000
Subject: [PATCH 34/36] fix: a data buffer which stops wakes everyone who waits

---
 src/maidsafe/common/data_buffer.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/data_buffer.cc b/src/maidsafe/common/data_buffer.cc
index c6e17d9..7641a21 100644
--- a/src/maidsafe/common/data_buffer.cc
+++ b/src/maidsafe/common/data_buffer.cc
@@ -174,6 +174,7 @@ void DataBuffer::StoreOnDisk(const KeyType& key, const NonEmptyString& value,
   if (value.string().size() > disk_store_.max) {
     LOG(kError) << "Cannot store " << DebugKeyName(key) << " since its " << value.string().size()
                 << " bytes exceeds max of " << disk_store_.max << " bytes.";
+    disk_store_lock.unlock();
     StopRunning();
     BOOST_THROW_EXCEPTION(MakeError(CommonErrors::cannot_exceed_limit));
   }
@@ -187,6 +188,7 @@ void DataBuffer::StoreOnDisk(const KeyType& key, const NonEmptyString& value,
   if (!cancelled) {
     if (!WriteFile(GetFilename(key), value.string())) {
       LOG(kError) << "Failed to move " << DebugKeyName(key) << " to disk.";
+      disk_store_lock.unlock();
       StopRunning();
       BOOST_THROW_EXCEPTION(MakeError(CommonErrors::filesystem_io_error));
     }
@@ -424,7 +426,13 @@ void DataBuffer::CheckWorkerIsStillRunning() {
 }
 
 void DataBuffer::StopRunning() {
-  running_ = false;
+  {
+    // Under both locks, so that nothing is between looking at 'running_' and waiting.
+    std::lock(memory_store_.mutex, disk_store_.mutex);
+    std::lock_guard<std::mutex> memory_store_lock(memory_store_.mutex, std::adopt_lock);
+    std::lock_guard<std::mutex> disk_store_lock(disk_store_.mutex, std::adopt_lock);
+    running_ = false;
+  }
   memory_store_.cond_var.notify_all();
   disk_store_.cond_var.notify_all();
 }
-- 
2.43.0


From 11673af492e86d8b4a930d359efbd335f8eb919d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:08:16 +0000
Subject: [PATCH 35/36] fix: a connection handles what it reads on its strand

---
 src/maidsafe/common/tcp/connection.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/tcp/connection.cc b/src/maidsafe/common/tcp/connection.cc
index 34f195e..b863dcd 100644
--- a/src/maidsafe/common/tcp/connection.cc
+++ b/src/maidsafe/common/tcp/connection.cc
@@ -110,7 +110,7 @@ void Connection::DoClose() {
 void Connection::ReadSize() {
   ConnectionPtr this_ptr{shared_from_this()};
   asio::async_read(socket_, asio::buffer(receiving_message_.size_buffer),
-                   [this_ptr](const std::error_code& ec, size_t bytes_transferred) {
+                   strand_.wrap([this_ptr](const std::error_code& ec, size_t bytes_transferred) {
     if (ec) {
       LOG(kInfo) << ec.message();
       return this_ptr->DoClose();
@@ -134,7 +134,7 @@ void Connection::ReadSize() {
 
     this_ptr->receiving_message_.data_buffer.resize(data_size);
     this_ptr->ReadData();
-  });
+  }));
 }
 
 void Connection::ReadData() {
-- 
2.43.0


From 24a707ebc524b11d6865aeeba0547e81e8b469cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:08:16 +0000
Subject: [PATCH 36/36] fix: a listener stops on its strand and lives until it
 has

---
 src/maidsafe/common/tcp/listener.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/tcp/listener.cc b/src/maidsafe/common/tcp/listener.cc
index 4468c5f..dbdbae5 100644
--- a/src/maidsafe/common/tcp/listener.cc
+++ b/src/maidsafe/common/tcp/listener.cc
@@ -131,7 +131,8 @@ void Listener::HandleAccept(ConnectionPtr accepted_connection, const std::error_
 }
 
 void Listener::StopListening() {
-  asio::post(strand_.context().get_executor(), [this] { DoStopListening(); });
+  ListenerPtr this_ptr{shared_from_this()};
+  asio::post(strand_, [this_ptr] { this_ptr->DoStopListening(); });
 }
 
 void Listener::DoStopListening() {
-- 
2.43.0

