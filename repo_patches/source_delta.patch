From 47322577119b963018eefad7bf6ab615a3f19d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:41 +0000
Subject: [PATCH 01/66] fix: refuse sections whose aligned virtual extent wraps
 past 4 GB

---
 src/pe_lib/pe_base.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index 7dcff57..7a9d8aa 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -927,7 +927,8 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
         }
 
         //Check virtual address and size of section
-        if(s.get_virtual_address() + s.get_aligned_virtual_size(get_section_alignment()) > pe_utils::align_up(get_size_of_image(), get_section_alignment()))
+        if(!pe_utils::is_sum_safe(s.get_virtual_address(), s.get_aligned_virtual_size(get_section_alignment()))
+            || s.get_virtual_address() + s.get_aligned_virtual_size(get_section_alignment()) > pe_utils::align_up(get_size_of_image(), get_section_alignment()))
             throw pe_exception("Incorrect section address or size", pe_exception::section_incorrect_addr_or_size);
 
         //Save section
-- 
2.43.0


From 270c27262c4e8d6dc99b03f00f625f63456d2294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:03 +0000
Subject: [PATCH 02/66] fix: reject VA/RVA conversions that do not fit or wrap
 around the image base

---
 src/pe_lib/pe_properties_generic.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/pe_lib/pe_properties_generic.cpp b/src/pe_lib/pe_properties_generic.cpp
index 40abf8c..fc67570 100755
--- a/src/pe_lib/pe_properties_generic.cpp
+++ b/src/pe_lib/pe_properties_generic.cpp
@@ -487,7 +487,7 @@ uint16_t pe_properties_generic<PEClassType>::get_major_subsystem_version() const
 template<typename PEClassType>
 uint32_t pe_properties_generic<PEClassType>::va_to_rva(uint32_t va, bool bound_check) const
 {
-    if(bound_check && static_cast<uint64_t>(va) - nt_headers_.OptionalHeader.ImageBase > pe_utils::max_dword)
+    if(bound_check && va < nt_headers_.OptionalHeader.ImageBase)
         throw pe_exception("Incorrect address conversion", pe_exception::incorrect_address_conversion);
 
     return static_cast<uint32_t>(va - nt_headers_.OptionalHeader.ImageBase);
@@ -497,7 +497,7 @@ uint32_t pe_properties_generic<PEClassType>::va_to_rva(uint32_t va, bool bound_c
 template<typename PEClassType>
 uint32_t pe_properties_generic<PEClassType>::va_to_rva(uint64_t va, bool bound_check) const
 {
-    if(bound_check && va - nt_headers_.OptionalHeader.ImageBase > pe_utils::max_dword)
+    if(bound_check && (va < nt_headers_.OptionalHeader.ImageBase || va - nt_headers_.OptionalHeader.ImageBase > pe_utils::max_dword))
         throw pe_exception("Incorrect address conversion", pe_exception::incorrect_address_conversion);
 
     return static_cast<uint32_t>(va - nt_headers_.OptionalHeader.ImageBase);
@@ -507,7 +507,8 @@ uint32_t pe_properties_generic<PEClassType>::va_to_rva(uint64_t va, bool bound_c
 template<typename PEClassType>
 uint32_t pe_properties_generic<PEClassType>::rva_to_va_32(uint32_t rva) const
 {
-    if(!pe_utils::is_sum_safe(rva, static_cast<uint32_t>(nt_headers_.OptionalHeader.ImageBase)))
+    if(nt_headers_.OptionalHeader.ImageBase > pe_utils::max_dword
+        || !pe_utils::is_sum_safe(rva, static_cast<uint32_t>(nt_headers_.OptionalHeader.ImageBase)))
         throw pe_exception("Incorrect address conversion", pe_exception::incorrect_address_conversion);
 
     return static_cast<uint32_t>(rva + nt_headers_.OptionalHeader.ImageBase);
@@ -517,7 +518,11 @@ uint32_t pe_properties_generic<PEClassType>::rva_to_va_32(uint32_t rva) const
 template<typename PEClassType>
 uint64_t pe_properties_generic<PEClassType>::rva_to_va_64(uint32_t rva) const
 {
-    return static_cast<uint64_t>(rva) + nt_headers_.OptionalHeader.ImageBase;
+    uint64_t image_base = nt_headers_.OptionalHeader.ImageBase;
+    if(image_base > static_cast<uint64_t>(-1) - rva)
+        throw pe_exception("Incorrect address conversion", pe_exception::incorrect_address_conversion);
+
+    return image_base + rva;
 }
 
 //Returns number of sections
-- 
2.43.0


From 9452a47559460546ab1e56ffa986801ff4df93ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:45 +0000
Subject: [PATCH 03/66] fix: a directory index outside an empty directory table
 does not exist

---
 src/pe_lib/pe_properties_generic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_properties_generic.cpp b/src/pe_lib/pe_properties_generic.cpp
index fc67570..206af85 100755
--- a/src/pe_lib/pe_properties_generic.cpp
+++ b/src/pe_lib/pe_properties_generic.cpp
@@ -44,7 +44,7 @@ pe_properties_generic<PEClassType>::~pe_properties_generic()
 template<typename PEClassType>
 bool pe_properties_generic<PEClassType>::directory_exists(uint32_t id) const
 {
-    return (nt_headers_.OptionalHeader.NumberOfRvaAndSizes - 1) >= id &&
+    return nt_headers_.OptionalHeader.NumberOfRvaAndSizes > id &&
         nt_headers_.OptionalHeader.DataDirectory[id].VirtualAddress;
 }
 
-- 
2.43.0


From 45621791d96d76808565008d7ea3e35ce2d82821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:45 +0000
Subject: [PATCH 04/66] fix: strip_data_directories keeps min_count
 directories, not min_count - 1

---
 src/pe_lib/pe_properties_generic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_properties_generic.cpp b/src/pe_lib/pe_properties_generic.cpp
index 206af85..ebc5e4b 100755
--- a/src/pe_lib/pe_properties_generic.cpp
+++ b/src/pe_lib/pe_properties_generic.cpp
@@ -127,7 +127,7 @@ uint32_t pe_properties_generic<PEClassType>::strip_data_directories(uint32_t min
         if(nt_headers_.OptionalHeader.DataDirectory[i].VirtualAddress && (static_cast<uint32_t>(i) != image_directory_entry_iat || !strip_iat_directory))
             break;
 
-        if(i <= static_cast<int>(min_count) - 2)
+        if(i <= static_cast<int>(min_count) - 1)
             break;
     }
 
-- 
2.43.0


From 2e0db0025fa12ff01ada31949c4a54d71ecb5b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:45 +0000
Subject: [PATCH 05/66] fix: typed access may read the last bytes of the
 headers

---
 src/pe_lib/pe_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_base.h b/src/pe_lib/pe_base.h
index 5642147..b340824 100644
--- a/src/pe_lib/pe_base.h
+++ b/src/pe_lib/pe_base.h
@@ -388,7 +388,7 @@ public: //IMAGE SECTIONS
     T section_data_from_rva(uint32_t rva, section_data_type datatype = section_data_raw, bool include_headers = false) const
     {
         //if RVA is inside of headers and we're searching them too...
-        if(include_headers && pe_utils::is_sum_safe(rva, sizeof(T)) && (rva + sizeof(T) < full_headers_data_.length()))
+        if(include_headers && pe_utils::is_sum_safe(rva, sizeof(T)) && (rva + sizeof(T) <= full_headers_data_.length()))
             return *reinterpret_cast<const T*>(&full_headers_data_[rva]);
 
         const section& s = section_from_rva(rva);
-- 
2.43.0


From 3d69ae8cc45a11a3ce819bcc87e3754c00b5b23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:46 +0000
Subject: [PATCH 06/66] fix: section data lengths of 2 GB and more are not
 reported as zero

---
 src/pe_lib/pe_base.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index 7a9d8aa..d1bccf4 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -705,13 +705,10 @@ uint32_t pe_base::section_data_length_from_rva(const section& s, uint32_t rva_in
     if(rva_inside >= s.get_virtual_address() && rva_inside < s.get_virtual_address() + s.get_aligned_virtual_size(get_section_alignment()))
     {
         //Calculate remaining length of section data from "rva" address
-        int32_t length = static_cast<int32_t>(datatype == section_data_raw ? s.get_raw_data().length() /* instead of SizeOfRawData */ : s.get_aligned_virtual_size(get_section_alignment()))
-            + s.get_virtual_address() - rva_inside;
+        uint32_t length = static_cast<uint32_t>(datatype == section_data_raw ? s.get_raw_data().length() /* instead of SizeOfRawData */ : s.get_aligned_virtual_size(get_section_alignment()));
+        uint32_t offset = rva_inside - s.get_virtual_address();
 
-        if(length < 0)
-            return 0;
-
-        return static_cast<uint32_t>(length);
+        return offset < length ? length - offset : 0;
     }
 
     throw pe_exception("RVA not found inside section", pe_exception::rva_not_exists);
-- 
2.43.0


From 950834255c3bc99723e23aa7108f587abba8c70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:18 +0000
Subject: [PATCH 07/66] fix: add_section refuses sections that do not fit and
 keeps SizeOfImage exact

---
 src/pe_lib/pe_base.cpp | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index d1bccf4..f7a8f9a 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -463,6 +463,10 @@ section& pe_base::add_section(section s, bool autoupdate /*= true*/)
     if(sections_.size() >= maximum_number_of_sections)
         throw pe_exception("Maximum number of sections has been reached", pe_exception::no_more_sections_can_be_added);
 
+    //Check that virtual size of section can be aligned
+    if(!pe_utils::is_sum_safe(s.get_virtual_size(), get_section_alignment() - 1))
+        throw pe_exception("Incorrect section address or size", pe_exception::section_incorrect_addr_or_size);
+
     //Prepare section before adding it
     prepare_section(s);
 
@@ -470,27 +474,38 @@ section& pe_base::add_section(section s, bool autoupdate /*= true*/)
     if(!sections_.empty())
     {
         s.set_virtual_address(pe_utils::align_up(sections_.back().get_virtual_address() + sections_.back().get_aligned_virtual_size(get_section_alignment()), get_section_alignment()));
-
-        //We should align last section raw size, if it wasn't aligned
-        section& last = sections_.back();
-
-        if (autoupdate)
-            last.set_size_of_raw_data(static_cast<uint32_t>(pe_utils::align_up(last.get_raw_data().length(), get_file_alignment())));
     }
     else
     {
+        if(!pe_utils::is_sum_safe(s.get_virtual_address(), get_section_alignment() - 1))
+            throw pe_exception("Incorrect section address or size", pe_exception::section_incorrect_addr_or_size);
+
         s.set_virtual_address(
             s.get_virtual_address() == 0
             ? pe_utils::align_up(get_size_of_headers(), get_section_alignment())
             : pe_utils::align_up(s.get_virtual_address(), get_section_alignment()));
     }
 
+    //Section must lie after headers and must not exceed the address space
+    if(s.get_virtual_address() < get_size_of_headers()
+        || !pe_utils::is_sum_safe(s.get_virtual_address(), s.get_aligned_virtual_size(get_section_alignment())))
+        throw pe_exception("Incorrect section address or size", pe_exception::section_incorrect_addr_or_size);
+
+    if(!sections_.empty())
+    {
+        //We should align last section raw size, if it wasn't aligned
+        section& last = sections_.back();
+
+        if (autoupdate)
+            last.set_size_of_raw_data(static_cast<uint32_t>(pe_utils::align_up(last.get_raw_data().length(), get_file_alignment())));
+    }
+
     //Add section to the end of section list
     sections_.push_back(s);
     //Set number of sections in PE header
     set_number_of_sections(static_cast<uint16_t>(sections_.size()));
     //Recalculate virtual size of image
-    set_size_of_image(get_size_of_image() + s.get_aligned_virtual_size(get_section_alignment()));
+    update_image_size();
     //Return last section
     return sections_.back();
 }
-- 
2.43.0


From 971df09c044368180fd27487de9ce7661e48b961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:18 +0000
Subject: [PATCH 08/66] fix: section virtual size and expansion work on free
 sections of an empty image and refuse sizes that do not fit

---
 src/pe_lib/pe_base.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index f7a8f9a..39723cb 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -336,9 +336,17 @@ void pe_base::set_section_virtual_size(section& s, uint32_t vsize)
 {
     //Check if we're changing virtual size of the last section
     //Of course, we can change virtual size of section that's not bound to this PE file
-    if(sections_.empty() || std::find_if(sections_.begin(), sections_.end() - 1, section_ptr_finder(s)) != sections_.end() - 1)
+    if(!sections_.empty() && std::find_if(sections_.begin(), sections_.end() - 1, section_ptr_finder(s)) != sections_.end() - 1)
         throw pe_exception("Can't change virtual size of any section, except last one", pe_exception::error_changing_section_virtual_size);
 
+    bool is_last = !sections_.empty() && &s == &(*(sections_.end() - 1));
+
+    //Check that aligned virtual size is representable and last section doesn't exceed the address space
+    uint32_t new_size = vsize ? vsize : s.get_size_of_raw_data();
+    if(!pe_utils::is_sum_safe(new_size, get_section_alignment() - 1)
+        || (is_last && !pe_utils::is_sum_safe(s.get_virtual_address(), pe_utils::align_up(new_size, get_section_alignment()))))
+        throw pe_exception("Incorrect section virtual size", pe_exception::error_changing_section_virtual_size);
+
     //If we're setting virtual size to zero
     if(vsize == 0)
     {
@@ -355,7 +363,7 @@ void pe_base::set_section_virtual_size(section& s, uint32_t vsize)
     }
 
     //Update image size if we're changing virtual size for the last section of this PE
-    if(!sections_.empty() || &s == &(*(sections_.end() - 1)))
+    if(is_last)
         update_image_size();
 }
 
@@ -366,12 +374,15 @@ bool pe_base::expand_section(section& s, uint32_t needed_rva, uint32_t needed_si
 {
     //Check if we're changing the last section
     //Of course, we can change the section that's not bound to this PE file
-    if(sections_.empty() || std::find_if(sections_.begin(), sections_.end() - 1, section_ptr_finder(s)) != sections_.end() - 1)
+    if(!sections_.empty() && std::find_if(sections_.begin(), sections_.end() - 1, section_ptr_finder(s)) != sections_.end() - 1)
         throw pe_exception("Can't expand any section, except last one", pe_exception::error_expanding_section);
 
     //Check if we should expand our section
     if(expand == expand_section_raw && section_data_length_from_rva(s, needed_rva, section_data_raw) < needed_size)
     {
+        if(!pe_utils::is_sum_safe(needed_rva - s.get_virtual_address(), needed_size))
+            throw pe_exception("Can't expand section, too much data needed", pe_exception::error_expanding_section);
+
         //Expand section raw data
         s.get_raw_data().resize(needed_rva - s.get_virtual_address() + needed_size);
         recalculate_section_sizes(s, false);
@@ -379,6 +390,9 @@ bool pe_base::expand_section(section& s, uint32_t needed_rva, uint32_t needed_si
     }
     else if(expand == expand_section_virtual && section_data_length_from_rva(s, needed_rva, section_data_virtual) < needed_size)
     {
+        if(!pe_utils::is_sum_safe(needed_rva - s.get_virtual_address(), needed_size))
+            throw pe_exception("Can't expand section, too much data needed", pe_exception::error_expanding_section);
+
         //Expand section virtual data
         set_section_virtual_size(s, needed_rva - s.get_virtual_address() + needed_size);
         return true;
-- 
2.43.0


From e2dd8cae4b898ab28c06ad0eade58e0cf0030d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:18 +0000
Subject: [PATCH 09/66] fix: recalculating section sizes keeps the image size
 exact and sections apart

---
 src/pe_lib/pe_base.cpp | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index 39723cb..dd08fd0 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -380,11 +380,14 @@ bool pe_base::expand_section(section& s, uint32_t needed_rva, uint32_t needed_si
     //Check if we should expand our section
     if(expand == expand_section_raw && section_data_length_from_rva(s, needed_rva, section_data_raw) < needed_size)
     {
-        if(!pe_utils::is_sum_safe(needed_rva - s.get_virtual_address(), needed_size))
+        const uint32_t new_size = needed_rva - s.get_virtual_address() + needed_size;
+        if(!pe_utils::is_sum_safe(needed_rva - s.get_virtual_address(), needed_size)
+            || !pe_utils::is_sum_safe(new_size, get_section_alignment() - 1)
+            || (section_attached(s) && !pe_utils::is_sum_safe(s.get_virtual_address(), pe_utils::align_up(new_size, get_section_alignment()))))
             throw pe_exception("Can't expand section, too much data needed", pe_exception::error_expanding_section);
 
         //Expand section raw data
-        s.get_raw_data().resize(needed_rva - s.get_virtual_address() + needed_size);
+        s.get_raw_data().resize(new_size);
         recalculate_section_sizes(s, false);
         return true;
     }
@@ -1590,8 +1593,28 @@ void pe_base::realign_file(uint32_t new_file_alignment)
 //Helper function to recalculate RAW and virtual section sizes and strip it, if necessary
 void pe_base::recalculate_section_sizes(section& s, bool auto_strip)
 {
+    const bool is_attached = section_attached(s);
+    const bool is_last = is_attached && &s == &*(sections_.end() - 1);
+    const image_section_header old_header = s.get_raw_header();
+    const uint32_t old_size = s.get_aligned_virtual_size(get_section_alignment());
+
     prepare_section(s); //Recalculate section raw addresses
 
+    if(is_attached)
+    {
+        //Only the last section can grow, and it must not exceed the address space
+        const uint32_t new_size = s.get_aligned_virtual_size(get_section_alignment());
+        if(is_last ? !pe_utils::is_sum_safe(s.get_virtual_address(), new_size) : new_size > old_size)
+        {
+            s.get_raw_header() = old_header;
+            throw pe_exception("Incorrect section address or size", pe_exception::section_incorrect_addr_or_size);
+        }
+
+        //The next section follows immediately, so virtual extent must be kept
+        if(!is_last && new_size < old_size)
+            s.set_virtual_size(old_size);
+    }
+
     //Strip RAW size of section, if it is the last one
     //For all others it must be file-aligned and calculated by prepare_section() call
     if(auto_strip && !(sections_.empty() || &s == &*(sections_.end() - 1)))
@@ -1616,6 +1639,10 @@ void pe_base::recalculate_section_sizes(section& s, bool auto_strip)
     //Can occur only for last section
     if(pe_utils::align_up(s.get_virtual_size(), get_section_alignment()) < pe_utils::align_up(s.get_size_of_raw_data(), get_file_alignment()))
         set_section_virtual_size(s, pe_utils::align_up(s.get_size_of_raw_data(), get_section_alignment())); //Recalculate section virtual size
+
+    //Virtual size of the last section could have been changed
+    if(is_last)
+        update_image_size();
 }
 
 //Returns data from the beginning of image
-- 
2.43.0


From 88af3c51dc415321f84e5c8baf322d41d17ace9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:18 +0000
Subject: [PATCH 10/66] fix: realigning a section loses neither its data nor
 its virtual size

---
 src/pe_lib/pe_base.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index dd08fd0..556ab9c 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -211,6 +211,10 @@ void pe_base::realign_section(uint32_t index)
 
     if(it == sections_.end() - 1) //If we're realigning the last section
     {
+        //Virtual size of section must not depend on its raw size anymore
+        if(!s.get_virtual_size())
+            s.set_virtual_size(s.get_size_of_raw_data());
+
         //We can strip ending null bytes
         s.set_size_of_raw_data(static_cast<uint32_t>(s.get_raw_data().length() - strip));
         s.get_raw_data().resize(s.get_raw_data().length() - strip, 0);
@@ -218,7 +222,8 @@ void pe_base::realign_section(uint32_t index)
     else
     {
         //Else just set size of raw data
-        uint32_t raw_size_aligned = s.get_aligned_raw_size(get_file_alignment());
+        uint32_t raw_size_aligned = std::max<uint32_t>(s.get_aligned_raw_size(get_file_alignment()),
+            static_cast<uint32_t>(pe_utils::align_up(s.get_raw_data().length(), get_file_alignment())));
         s.set_size_of_raw_data(raw_size_aligned);
         s.get_raw_data().resize(raw_size_aligned, 0);
     }
-- 
2.43.0


From 2ccfeab2a3e5b04f01d550e2d16e2e261b45c793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:37 +0000
Subject: [PATCH 11/66] fix: rebuild_pe writes no bytes past the end of a
 section's data

---
 src/pe_lib/pe_rebuilder.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/pe_rebuilder.cpp b/src/pe_lib/pe_rebuilder.cpp
index eb9888d..b8a97ae 100644
--- a/src/pe_lib/pe_rebuilder.cpp
+++ b/src/pe_lib/pe_rebuilder.cpp
@@ -164,8 +164,15 @@ void rebuild_pe(pe_base& pe, std::ostream& out, bool strip_dos_header, bool chan
         for(unsigned int i = 0; i < s.get_pointer_to_raw_data() - wpos; i++)
             out.put(0);
 
-        //Write raw section data
-        out.write(s.get_raw_data().data(), s.get_size_of_raw_data());
+        //Write raw section data. If there's less data than SizeOfRawData, add null bytes
+        const uint32_t raw_size = s.get_size_of_raw_data();
+        uint32_t written = raw_size;
+        if(s.get_raw_data().length() < raw_size)
+            written = static_cast<uint32_t>(s.get_raw_data().length());
+
+        out.write(s.get_raw_data().data(), written);
+        for(; written < raw_size; ++written)
+            out.put(0);
     }
 }
 }
-- 
2.43.0


From 7b46d4cc8c67d11e5d527a77a361605262dada48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:37 +0000
Subject: [PATCH 12/66] fix: stale file position of a section without raw data
 does not displace other sections' data

---
 src/pe_lib/pe_rebuilder.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pe_lib/pe_rebuilder.cpp b/src/pe_lib/pe_rebuilder.cpp
index b8a97ae..1642c48 100644
--- a/src/pe_lib/pe_rebuilder.cpp
+++ b/src/pe_lib/pe_rebuilder.cpp
@@ -158,6 +158,10 @@ void rebuild_pe(pe_base& pe, std::ostream& out, bool strip_dos_header, bool chan
     {
         const section& s = *it;
 
+        //PointerToRawData of the section without raw data has no meaning
+        if(!s.get_size_of_raw_data())
+            continue;
+
         std::streamoff wpos = out.tellp();
 
         //Fill unused overlay data between sections with null bytes
-- 
2.43.0


From 5ce603788856c34f7c503c09b4740dce44071939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:37 +0000
Subject: [PATCH 13/66] fix: overlay flag considers raw data of all sections,
 not of the last section header

---
 src/pe_lib/pe_base.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index 556ab9c..9875f67 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -894,7 +894,8 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
             throw pe_exception("Cannot reach section headers", pe_exception::image_section_headers_not_found);
     }
 
-    uint32_t last_raw_size = 0;
+    //End of headers and raw data of all sections in file
+    uint32_t raw_data_end = get_size_of_headers();
 
     //Read all sections
     for(int i = 0; i < get_number_of_sections(); i++)
@@ -921,8 +922,9 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
         {
             //If section has raw data
 
+            raw_data_end = std::max<uint32_t>(raw_data_end, s.get_pointer_to_raw_data() + s.get_size_of_raw_data());
+
             //If section raw data size is greater than virtual, fix it
-            last_raw_size = s.get_size_of_raw_data();
             if(pe_utils::align_up(s.get_size_of_raw_data(), get_file_alignment()) > pe_utils::align_up(s.get_virtual_size(), get_section_alignment()))
                 s.set_size_of_raw_data(s.get_virtual_size());
 
@@ -988,7 +990,7 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
     }
 
     //Check if image has overlay in the end of file
-    has_overlay_ = !sections_.empty() && filesize > static_cast<std::streamoff>(sections_.back().get_pointer_to_raw_data() + last_raw_size);
+    has_overlay_ = !sections_.empty() && filesize > static_cast<std::streamoff>(raw_data_end);
 
     {
         //Additionally, read data from the beginning of istream to size of headers
-- 
2.43.0


From 69964f97670df7945ae3ccdd2272160c6104de0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:37 +0000
Subject: [PATCH 14/66] fix: sections with zero virtual size keep their raw
 data when an image is opened

---
 src/pe_lib/pe_base.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index 9875f67..1712793 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -925,7 +925,8 @@ void pe_base::read_pe(std::istream& file, bool read_debug_raw_data, bool is_file
             raw_data_end = std::max<uint32_t>(raw_data_end, s.get_pointer_to_raw_data() + s.get_size_of_raw_data());
 
             //If section raw data size is greater than virtual, fix it
-            if(pe_utils::align_up(s.get_size_of_raw_data(), get_file_alignment()) > pe_utils::align_up(s.get_virtual_size(), get_section_alignment()))
+            //(if virtual size is zero, it is determined by raw size)
+            if(s.get_virtual_size() && pe_utils::align_up(s.get_size_of_raw_data(), get_file_alignment()) > pe_utils::align_up(s.get_virtual_size(), get_section_alignment()))
                 s.set_size_of_raw_data(s.get_virtual_size());
 
             //Check virtual and raw section sizes and addresses
-- 
2.43.0


From a3e6e15a0e9ce6fc6f1f5d61f20c178f6d2df280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:37 +0000
Subject: [PATCH 15/66] fix: pe_base self-assignment does not use deleted
 properties

---
 src/pe_lib/pe_base.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index 1712793..b39242d 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -94,9 +94,9 @@ pe_base& pe_base::operator=(const pe_base& pe)
     has_overlay_ = pe.has_overlay_;
     full_headers_data_ = pe.full_headers_data_;
     debug_data_ = pe.debug_data_;
+    pe_properties* props = pe.props_->duplicate().release();
     delete props_;
-    props_ = 0;
-    props_ = pe.props_->duplicate().release();
+    props_ = props;
 
     return *this;
 }
-- 
2.43.0


From 03db453371b0bd90601806bed77630082a546e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:37 +0000
Subject: [PATCH 16/66] fix: stream position and exception mask are restored
 after reads past the end

---
 src/pe_lib/pe_base.cpp     | 12 ++++++++----
 src/pe_lib/pe_checksum.cpp |  6 ++++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/pe_lib/pe_base.cpp b/src/pe_lib/pe_base.cpp
index b39242d..8f2fd4e 100644
--- a/src/pe_lib/pe_base.cpp
+++ b/src/pe_lib/pe_base.cpp
@@ -32,17 +32,19 @@ pe_base::pe_base(std::istream& file, const pe_properties& props, bool is_file_fr
     catch(const std::exception&)
     {
         //If something went wrong, restore istream state
+        file.clear();
         file.seekg(old_offset);
-        file.exceptions(state);
         file.clear();
+        file.exceptions(state);
         //Rethrow
         throw;
     }
 
     //Restore istream state
+    file.clear();
     file.seekg(old_offset);
-    file.exceptions(state);
     file.clear();
+    file.exceptions(state);
 }
 
 pe_base::pe_base(const pe_properties& props, uint32_t section_alignment, bool dll, uint16_t subsystem)
@@ -1112,17 +1114,19 @@ pe_type pe_base::get_pe_type(std::istream& file)
     catch(const std::exception&)
     {
         //If something went wrong, restore istream state
-        file.exceptions(state);
+        file.clear();
         file.seekg(old_offset);
         file.clear();
+        file.exceptions(state);
         //Retrhow exception
         throw;
     }
 
     //Restore stream state
-    file.exceptions(state);
+    file.clear();
     file.seekg(old_offset);
     file.clear();
+    file.exceptions(state);
 
     //Determine PE type and return it
     return nt_headers.OptionalHeader.Magic == image_nt_optional_hdr64_magic ? pe_type_64 : pe_type_32;
diff --git a/src/pe_lib/pe_checksum.cpp b/src/pe_lib/pe_checksum.cpp
index 2125780..8f530d6 100644
--- a/src/pe_lib/pe_checksum.cpp
+++ b/src/pe_lib/pe_checksum.cpp
@@ -64,17 +64,19 @@ uint32_t calculate_checksum(std::istream& file)
     catch(const std::exception&)
     {
         //If something went wrong, restore istream state
-        file.exceptions(state);
+        file.clear();
         file.seekg(old_offset);
         file.clear();
+        file.exceptions(state);
         //Rethrow
         throw;
     }
 
     //Restore istream state
-    file.exceptions(state);
+    file.clear();
     file.seekg(old_offset);
     file.clear();
+    file.exceptions(state);
 
     //Return checksum
     return static_cast<uint32_t>(checksum);    
-- 
2.43.0


From 957fa24d4583d7142b820feb53f1d3c19495544a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:47 +0000
Subject: [PATCH 17/66] fix: rebuild_imports wrote ordinal imports of one
 library over each other when only the IAT is built

---
 src/pe_lib/pe_imports.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pe_lib/pe_imports.cpp b/src/pe_lib/pe_imports.cpp
index 51b5b3f..7cdd434 100644
--- a/src/pe_lib/pe_imports.cpp
+++ b/src/pe_lib/pe_imports.cpp
@@ -656,6 +656,7 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
                         else
                         {
                             memcpy(&raw_data[current_pos_for_iat], &thunk_value, sizeof(thunk_value));
+                            current_pos_for_iat += sizeof(thunk_value);
                         }
                     }
                 }
-- 
2.43.0


From 616194c997fa68a5cc38ae58fbd247fd188f9dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:47 +0000
Subject: [PATCH 18/66] fix: rebuild_imports must put names to the IAT when the
 original IAT is not referenced (fill_missing_original_iats without
 build_original_iat)

---
 src/pe_lib/pe_imports.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_imports.cpp b/src/pe_lib/pe_imports.cpp
index 7cdd434..7a3bd95 100644
--- a/src/pe_lib/pe_imports.cpp
+++ b/src/pe_lib/pe_imports.cpp
@@ -486,7 +486,7 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
         //If we should save IAT for current import descriptor
         bool save_iats_for_this_descriptor = import_settings.save_iat_and_original_iat_rvas() && (*it).get_rva_to_iat() != 0;
         //If we should write original IAT
-        bool write_original_iat = (!save_iats_for_this_descriptor && import_settings.build_original_iat()) || import_settings.fill_missing_original_iats();
+        bool write_original_iat = import_settings.build_original_iat() && (!save_iats_for_this_descriptor || import_settings.fill_missing_original_iats());
 
         //If we should rewrite saved original IAT for current import descriptor (without changing its position)
         bool rewrite_saved_original_iat = save_iats_for_this_descriptor && import_settings.rewrite_iat_and_original_iat_contents() && import_settings.build_original_iat();
-- 
2.43.0


From c1954a64ff5e66150036d1fcfa4614cfc7e22c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:07 +0000
Subject: [PATCH 19/66] fix: rebuild_imports refused to rewrite a saved IAT
 that ends at the end of the stored section data

---
 src/pe_lib/pe_imports.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/pe_lib/pe_imports.cpp b/src/pe_lib/pe_imports.cpp
index 7a3bd95..0f942e0 100644
--- a/src/pe_lib/pe_imports.cpp
+++ b/src/pe_lib/pe_imports.cpp
@@ -555,7 +555,7 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
 
                         if(rewrite_saved_iat)
                         {
-                            if(pe.section_data_length_from_rva(first_thunk, first_thunk, section_data_raw, true) <= sizeof(iat_value))
+                            if(pe.section_data_length_from_rva(first_thunk, first_thunk, section_data_raw, true) < sizeof(iat_value))
                                 throw pe_exception("Insufficient space inside initial IAT", pe_exception::insufficient_space);
 
                             memcpy(pe.section_data_from_rva(first_thunk, true), &iat_value, sizeof(iat_value));
@@ -573,7 +573,7 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
                         //Else - write to IAT RVA of IMAGE_IMPORT_BY_NAME
                         if(rewrite_saved_iat)
                         {
-                            if(pe.section_data_length_from_rva(first_thunk, first_thunk, section_data_raw, true) <= sizeof(rva_of_named_import))
+                            if(pe.section_data_length_from_rva(first_thunk, first_thunk, section_data_raw, true) < sizeof(rva_of_named_import))
                                 throw pe_exception("Insufficient space inside initial IAT", pe_exception::insufficient_space);
 
                             memcpy(pe.section_data_from_rva(first_thunk, true), &rva_of_named_import, sizeof(rva_of_named_import));
@@ -592,7 +592,7 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
                 {
                     if(rewrite_saved_original_iat)
                     {
-                        if(pe.section_data_length_from_rva(original_first_thunk, original_first_thunk, section_data_raw, true) <= sizeof(rva_of_named_import))
+                        if(pe.section_data_length_from_rva(original_first_thunk, original_first_thunk, section_data_raw, true) < sizeof(rva_of_named_import))
                             throw pe_exception("Insufficient space inside initial original IAT", pe_exception::insufficient_space);
 
                         memcpy(pe.section_data_from_rva(original_first_thunk, true), &rva_of_named_import, sizeof(rva_of_named_import));
@@ -628,7 +628,7 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
                         typename PEClassType::BaseSize iat_value = static_cast<typename PEClassType::BaseSize>((*f).get_iat_va());
                         if(rewrite_saved_iat)
                         {
-                            if(pe.section_data_length_from_rva(first_thunk, first_thunk, section_data_raw, true) <= sizeof(iat_value))
+                            if(pe.section_data_length_from_rva(first_thunk, first_thunk, section_data_raw, true) < sizeof(iat_value))
                                 throw pe_exception("Insufficient space inside initial IAT", pe_exception::insufficient_space);
 
                             memcpy(pe.section_data_from_rva(first_thunk, true), &iat_value, sizeof(iat_value));
@@ -646,7 +646,7 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
                         //Else - write ordinal to IAT
                         if(rewrite_saved_iat)
                         {
-                            if(pe.section_data_length_from_rva(first_thunk, first_thunk, section_data_raw, true) <= sizeof(thunk_value))
+                            if(pe.section_data_length_from_rva(first_thunk, first_thunk, section_data_raw, true) < sizeof(thunk_value))
                                 throw pe_exception("Insufficient space inside initial IAT", pe_exception::insufficient_space);
 
                             memcpy(pe.section_data_from_rva(first_thunk, true), &thunk_value, sizeof(thunk_value));
@@ -666,7 +666,7 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
                 {
                     if(rewrite_saved_original_iat)
                     {
-                        if(pe.section_data_length_from_rva(original_first_thunk, original_first_thunk, section_data_raw, true) <= sizeof(thunk_value))
+                        if(pe.section_data_length_from_rva(original_first_thunk, original_first_thunk, section_data_raw, true) < sizeof(thunk_value))
                             throw pe_exception("Insufficient space inside initial original IAT", pe_exception::insufficient_space);
 
                         memcpy(pe.section_data_from_rva(original_first_thunk, true), &thunk_value, sizeof(thunk_value));
@@ -689,7 +689,7 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
 
             if(rewrite_saved_iat)
             {
-                if(pe.section_data_length_from_rva(first_thunk, first_thunk, section_data_raw, true) <= sizeof(thunk_value))
+                if(pe.section_data_length_from_rva(first_thunk, first_thunk, section_data_raw, true) < sizeof(thunk_value))
                     throw pe_exception("Insufficient space inside initial IAT", pe_exception::insufficient_space);
 
                 memcpy(pe.section_data_from_rva(first_thunk, true), &thunk_value, sizeof(thunk_value));
@@ -710,7 +710,7 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
 
             if(rewrite_saved_original_iat)
             {
-                if(pe.section_data_length_from_rva(original_first_thunk, original_first_thunk, section_data_raw, true) <= sizeof(thunk_value))
+                if(pe.section_data_length_from_rva(original_first_thunk, original_first_thunk, section_data_raw, true) < sizeof(thunk_value))
                     throw pe_exception("Insufficient space inside initial original IAT", pe_exception::insufficient_space);
 
                 memcpy(pe.section_data_from_rva(original_first_thunk, true), &thunk_value, sizeof(thunk_value));
-- 
2.43.0


From 2230eb3fe7abc2178df79c655180d1bb6f516a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:16 +0000
Subject: [PATCH 20/66] fix: rebuild_exports computed a wrong number of
 functions for an empty export list

---
 src/pe_lib/pe_exports.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/pe_exports.cpp b/src/pe_lib/pe_exports.cpp
index 10ee7f0..bf89b53 100644
--- a/src/pe_lib/pe_exports.cpp
+++ b/src/pe_lib/pe_exports.cpp
@@ -537,7 +537,8 @@ const image_directory rebuild_exports(pe_base& pe, const export_info& info, expo
     needed_size_for_strings += needed_size_for_function_forwards;
     uint32_t needed_size_for_function_name_ordinals = number_of_names * sizeof(uint16_t);
     uint32_t needed_size_for_function_name_rvas = number_of_names * sizeof(uint32_t);
-    uint32_t needed_size_for_function_addresses = (max_ordinal - ordinal_base + 1) * sizeof(uint32_t);
+    const uint32_t number_of_functions = exports.empty() ? 0 : max_ordinal - ordinal_base + 1;
+    uint32_t needed_size_for_function_addresses = number_of_functions * sizeof(uint32_t);
     
     //Export directory header will be placed first
     uint32_t directory_pos = pe_utils::align_up(offset_from_section_start, sizeof(uint32_t));
@@ -580,7 +581,7 @@ const image_directory rebuild_exports(pe_base& pe, const export_info& info, expo
         dir.MajorVersion = info.get_major_version();
         dir.MinorVersion = info.get_minor_version();
         dir.TimeDateStamp = info.get_timestamp();
-        dir.NumberOfFunctions = max_ordinal - ordinal_base + 1;
+        dir.NumberOfFunctions = number_of_functions;
         dir.NumberOfNames = number_of_names;
         dir.Base = ordinal_base;
         dir.AddressOfFunctions = pe.rva_from_section_offset(exports_section, current_pos_of_function_addresses);
-- 
2.43.0


From fb0500d2c5cff14eca320d6d68c9bb4c059d0dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:16 +0000
Subject: [PATCH 21/66] fix: forwarders of functions exported by ordinal only
 were not read

---
 src/pe_lib/pe_exports.cpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/pe_lib/pe_exports.cpp b/src/pe_lib/pe_exports.cpp
index bf89b53..6938c4c 100644
--- a/src/pe_lib/pe_exports.cpp
+++ b/src/pe_lib/pe_exports.cpp
@@ -383,26 +383,26 @@ const exported_functions_list get_exported_functions(const pe_base& pe, export_i
                     func.set_name(func_name);
                     func.set_name_ordinal(ordinal2);
 
-                    //If the function is just a redirect, save its name
-                    if(rva >= pe.get_directory_rva(image_directory_entry_export) + sizeof(image_directory_entry_export) &&
-                        rva < pe.get_directory_rva(image_directory_entry_export) + pe.get_directory_size(image_directory_entry_export))
-                    {
-                        if((max_name_length = pe.section_data_length_from_rva(rva, rva, section_data_virtual, true)) < 2)
-                            throw pe_exception("Incorrect export directory", pe_exception::incorrect_export_directory);
+                    break;
+                }
+            }
 
-                        //Get forwarded function name pointer
-                        const char* forwarded_func_name = pe.section_data_from_rva(rva, section_data_virtual, true);
+            //If the function is just a redirect, save its name
+            if(rva >= pe.get_directory_rva(image_directory_entry_export) + sizeof(image_directory_entry_export) &&
+                rva < pe.get_directory_rva(image_directory_entry_export) + pe.get_directory_size(image_directory_entry_export))
+            {
+                if((max_name_length = pe.section_data_length_from_rva(rva, rva, section_data_virtual, true)) < 2)
+                    throw pe_exception("Incorrect export directory", pe_exception::incorrect_export_directory);
 
-                        //Check for null-termination
-                        if(!pe_utils::is_null_terminated(forwarded_func_name, max_name_length))
-                            throw pe_exception("Incorrect export directory", pe_exception::incorrect_export_directory);
+                //Get forwarded function name pointer
+                const char* forwarded_func_name = pe.section_data_from_rva(rva, section_data_virtual, true);
 
-                        //Set the name of forwarded function
-                        func.set_forwarded_name(forwarded_func_name);
-                    }
+                //Check for null-termination
+                if(!pe_utils::is_null_terminated(forwarded_func_name, max_name_length))
+                    throw pe_exception("Incorrect export directory", pe_exception::incorrect_export_directory);
 
-                    break;
-                }
+                //Set the name of forwarded function
+                func.set_forwarded_name(forwarded_func_name);
             }
 
             //Add function info to output array
-- 
2.43.0


From 8e3c4af8e10051e7acb74c0acab0db6f284a3fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:58 +0000
Subject: [PATCH 22/66] fix: relocation block size must be checked for every
 block, and not for a directory without blocks

---
 src/pe_lib/pe_relocations.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pe_lib/pe_relocations.cpp b/src/pe_lib/pe_relocations.cpp
index 331ea46..97f6c54 100644
--- a/src/pe_lib/pe_relocations.cpp
+++ b/src/pe_lib/pe_relocations.cpp
@@ -119,15 +119,15 @@ const relocation_table_list get_relocations(const pe_base& pe, bool list_absolut
     //First IMAGE_BASE_RELOCATION table
     image_base_relocation reloc_table = pe.section_data_from_rva<image_base_relocation>(current_pos, section_data_virtual, true);
 
-    if(reloc_table.SizeOfBlock % 2)
-        throw pe_exception("Incorrect relocation directory", pe_exception::incorrect_relocation_directory);
-
     uint32_t reloc_size = pe.get_directory_size(image_directory_entry_basereloc);
     uint32_t read_size = 0;
 
     //reloc_table.VirtualAddress is not checked (not so important)
     while(reloc_table.SizeOfBlock && read_size < reloc_size)
     {
+        if(reloc_table.SizeOfBlock % 2)
+            throw pe_exception("Incorrect relocation directory", pe_exception::incorrect_relocation_directory);
+
         //Create relocation table
         relocation_table table;
         //Save RVA
-- 
2.43.0


From ad456a2fd041cd315eb7f21388d5086c9e6b39ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:58 +0000
Subject: [PATCH 23/66] fix: rebase_image changed bytes behind a 32-bit
 relocated field of a PE32+ image

---
 src/pe_lib/pe_relocations.cpp | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/pe_lib/pe_relocations.cpp b/src/pe_lib/pe_relocations.cpp
index 97f6c54..65c0dd2 100644
--- a/src/pe_lib/pe_relocations.cpp
+++ b/src/pe_lib/pe_relocations.cpp
@@ -257,6 +257,15 @@ void rebase_image(pe_base& pe, const relocation_table_list& tables, uint64_t new
         : rebase_image_base<pe_types_class_64>(pe, tables, new_base);
 }
 
+//Helper: adds image base difference to the field of type T situated at RVA
+template<typename T>
+static void add_to_field(pe_base& pe, uint32_t rva, uint64_t base_rel)
+{
+    T value = pe.section_data_from_rva<T>(rva, section_data_raw, true);
+    value = static_cast<T>(value + base_rel);
+    memcpy(pe.section_data_from_rva(rva, true), &value, sizeof(value));
+}
+
 //RELOCATIONS
 //Recalculates image base with the help of relocation tables
 //Recalculates VAs of DWORDS/QWORDS in image according to relocations
@@ -271,7 +280,7 @@ void rebase_image_base(pe_base& pe, const relocation_table_list& tables, uint64_
     pe.get_image_base(image_base);
 
     //ImageBase difference
-    typename PEClassType::BaseSize base_rel = static_cast<typename PEClassType::BaseSize>(static_cast<int64_t>(new_base) - image_base);
+    const uint64_t base_rel = new_base - image_base;
 
     //We need to fix addresses from relocation tables
     //Enumerate relocation tables
@@ -290,9 +299,20 @@ void rebase_image_base(pe_base& pe, const relocation_table_list& tables, uint64_
             
             //Recalculate value by RVA and rewrite it
             uint32_t current_rva = base_rva + (*rel).get_rva();
-            typename PEClassType::BaseSize value = pe.section_data_from_rva<typename PEClassType::BaseSize>(current_rva, section_data_raw, true);
-            value += base_rel;
-            memcpy(pe.section_data_from_rva(current_rva, true), &value, sizeof(value));
+            switch((*rel).get_type())
+            {
+            case pe_win::image_rel_based_highlow:
+                add_to_field<uint32_t>(pe, current_rva, base_rel);
+                break;
+
+            case pe_win::image_rel_based_dir64:
+                add_to_field<uint64_t>(pe, current_rva, base_rel);
+                break;
+
+            default:
+                add_to_field<typename PEClassType::BaseSize>(pe, current_rva, base_rel);
+                break;
+            }
         }
     }
 
-- 
2.43.0


From 87f8a33b9a3cf64993de13046856c2d98be4e8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:47 +0000
Subject: [PATCH 24/66] fix: rebuild_tls read behind the end of TLS raw data
 shorter than its address range

---
 src/pe_lib/pe_tls.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pe_lib/pe_tls.cpp b/src/pe_lib/pe_tls.cpp
index e639cb0..ab17f54 100644
--- a/src/pe_lib/pe_tls.cpp
+++ b/src/pe_lib/pe_tls.cpp
@@ -1,4 +1,5 @@
 #include <string.h>
+#include <algorithm>
 #include "pe_tls.h"
 #include "pe_properties_generic.h"
 
@@ -310,6 +311,9 @@ const image_directory rebuild_tls_base(pe_base& pe, const tls_info& info, sectio
                 write_raw_data_size = available_raw_length; //We'll write just a part of full raw data
         }
 
+        //The string can be shorter than raw data range
+        write_raw_data_size = std::min<uint32_t>(write_raw_data_size, static_cast<uint32_t>(info.get_raw_data().length()));
+
         //Write raw TLS data, if any
         if(write_raw_data_size != 0)
             memcpy(pe.section_data_from_rva(info.get_raw_data_start_rva(), true), info.get_raw_data().data(), write_raw_data_size);
-- 
2.43.0


From de99e89fb406ffd4c50a8b0bc5179fed8c7e8f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:47 +0000
Subject: [PATCH 25/66] fix: rebuild_tls wrote the ending null TLS callback
 behind the end of section raw data

---
 src/pe_lib/pe_tls.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/pe_tls.cpp b/src/pe_lib/pe_tls.cpp
index ab17f54..f46c67e 100644
--- a/src/pe_lib/pe_tls.cpp
+++ b/src/pe_lib/pe_tls.cpp
@@ -358,8 +358,10 @@ const image_directory rebuild_tls_base(pe_base& pe, const tls_info& info, sectio
         //Ending null element
         callbacks_virtual_addresses.push_back(0);
 
-        //Write callbacks TLS data
-        memcpy(pe.section_data_from_rva(info.get_callbacks_rva(), true), &callbacks_virtual_addresses[0], needed_callback_size);
+        //Write callbacks TLS data (last zero element can be virtual only)
+        const uint32_t write_callback_size = std::min<uint32_t>(needed_callback_size, pe.section_data_length_from_rva(info.get_callbacks_rva(), info.get_callbacks_rva(), section_data_raw, true));
+        if(write_callback_size != 0)
+            memcpy(pe.section_data_from_rva(info.get_callbacks_rva(), true), &callbacks_virtual_addresses[0], write_callback_size);
     }
     
     //Adjust section raw and virtual sizes
-- 
2.43.0


From e523e91884375391c94dcaff070f5c2f520a3ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:47 +0000
Subject: [PATCH 26/66] fix: rebuild_tls lost the zero fill size of TLS without
 raw data

---
 src/pe_lib/pe_tls.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_tls.cpp b/src/pe_lib/pe_tls.cpp
index f46c67e..dbe7409 100644
--- a/src/pe_lib/pe_tls.cpp
+++ b/src/pe_lib/pe_tls.cpp
@@ -259,7 +259,6 @@ const image_directory rebuild_tls_base(pe_base& pe, const tls_info& info, sectio
     {
         pe.rva_to_va(info.get_raw_data_start_rva(), va);
         tls_struct.StartAddressOfRawData = va;
-        tls_struct.SizeOfZeroFill = info.get_size_of_zero_fill();
     }
 
     if(info.get_raw_data_end_rva())
@@ -277,6 +276,7 @@ const image_directory rebuild_tls_base(pe_base& pe, const tls_info& info, sectio
         tls_struct.AddressOfCallBacks = va;
     }
 
+    tls_struct.SizeOfZeroFill = info.get_size_of_zero_fill();
     tls_struct.Characteristics = info.get_characteristics();
 
     //Save TLS structure
-- 
2.43.0


From f2ed4339e99a14e7c1983acc8accd89a58914d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:30 +0000
Subject: [PATCH 27/66] fix: load config tables stored partly in stripped
 section data could not be read

---
 src/pe_lib/pe_load_config.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/pe_load_config.cpp b/src/pe_lib/pe_load_config.cpp
index 10a79bc..bdc7de4 100644
--- a/src/pe_lib/pe_load_config.cpp
+++ b/src/pe_lib/pe_load_config.cpp
@@ -359,7 +359,7 @@ const image_config_info get_image_config_base(const pe_base& pe)
 
     //Read sorted SE handler RVA list (if any)
     for(typename PEClassType::BaseSize i = 0; i != config_info.SEHandlerCount; ++i)
-        ret.add_se_handler_rva(pe.section_data_from_va<uint32_t>(static_cast<typename PEClassType::BaseSize>(config_info.SEHandlerTable + i * sizeof(uint32_t))));
+        ret.add_se_handler_rva(pe.section_data_from_va<uint32_t>(static_cast<typename PEClassType::BaseSize>(config_info.SEHandlerTable + i * sizeof(uint32_t)), section_data_virtual));
 
     if(config_info.LockPrefixTable)
     {
@@ -367,7 +367,7 @@ const image_config_info get_image_config_base(const pe_base& pe)
         uint32_t current = 0;
         while(true)
         {
-            typename PEClassType::BaseSize lock_prefix_va = pe.section_data_from_va<typename PEClassType::BaseSize>(static_cast<typename PEClassType::BaseSize>(config_info.LockPrefixTable + current * sizeof(typename PEClassType::BaseSize)));
+            typename PEClassType::BaseSize lock_prefix_va = pe.section_data_from_va<typename PEClassType::BaseSize>(static_cast<typename PEClassType::BaseSize>(config_info.LockPrefixTable + current * sizeof(typename PEClassType::BaseSize)), section_data_virtual);
             if(!lock_prefix_va)
                 break;
 
-- 
2.43.0


From 5c603eaec2783167bef308e47d88f039b75e0d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:22 +0000
Subject: [PATCH 28/66] fix: rebuild_bound_imports did not write the ending
 null descriptor

---
 src/pe_lib/pe_bound_import.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pe_lib/pe_bound_import.cpp b/src/pe_lib/pe_bound_import.cpp
index 985ebf4..97d1741 100644
--- a/src/pe_lib/pe_bound_import.cpp
+++ b/src/pe_lib/pe_bound_import.cpp
@@ -273,6 +273,9 @@ const image_directory rebuild_bound_imports(pe_base& pe, const bound_import_modu
         }
     }
 
+    //Ending null descriptor
+    memset(&raw_data[current_pos_for_structures], 0, sizeof(image_bound_import_descriptor));
+
     //Adjust section raw and virtual sizes
     pe.recalculate_section_sizes(imports_section, auto_strip_last_section);
     
-- 
2.43.0


From feda2d220ab23671b1b786a50e16100aef68c8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:23 +0000
Subject: [PATCH 29/66] fix: rebuild_bound_imports truncated module name
 offsets of large directories

---
 src/pe_lib/pe_bound_import.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pe_lib/pe_bound_import.cpp b/src/pe_lib/pe_bound_import.cpp
index 97d1741..aaf26d7 100644
--- a/src/pe_lib/pe_bound_import.cpp
+++ b/src/pe_lib/pe_bound_import.cpp
@@ -226,6 +226,10 @@ const image_directory rebuild_bound_imports(pe_base& pe, const bound_import_modu
     }
     
     needed_size += needed_size_for_strings;
+
+    //Offsets of module names are 16-bit
+    if(needed_size > pe_utils::max_word)
+        throw pe_exception("Bound import directory is too large", pe_exception::incorrect_bound_import_directory);
     
     //Check if imports_section is last one. If it's not, check if there's enough place for bound import data
     if(&imports_section != &*(pe.get_image_sections().end() - 1) && 
-- 
2.43.0


From 0d7eb1aa728d4504df4435d4581f9e9fd43a2bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:23 +0000
Subject: [PATCH 30/66] fix: bound import directory stored partly in stripped
 section data could not be read

---
 src/pe_lib/pe_bound_import.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/pe_bound_import.cpp b/src/pe_lib/pe_bound_import.cpp
index aaf26d7..c9ce207 100644
--- a/src/pe_lib/pe_bound_import.cpp
+++ b/src/pe_lib/pe_bound_import.cpp
@@ -115,12 +115,12 @@ const bound_import_module_list get_bound_import_module_list(const pe_base& pe)
         return ret;
 
     uint32_t bound_import_data_len =
-        pe.section_data_length_from_rva(pe.get_directory_rva(image_directory_entry_bound_import), pe.get_directory_rva(image_directory_entry_bound_import), section_data_raw, true);
+        pe.section_data_length_from_rva(pe.get_directory_rva(image_directory_entry_bound_import), pe.get_directory_rva(image_directory_entry_bound_import), section_data_virtual, true);
 
     if(bound_import_data_len < pe.get_directory_size(image_directory_entry_bound_import))
         throw pe_exception("Incorrect bound import directory", pe_exception::incorrect_bound_import_directory);
     
-    const char* bound_import_data = pe.section_data_from_rva(pe.get_directory_rva(image_directory_entry_bound_import), section_data_raw, true);
+    const char* bound_import_data = pe.section_data_from_rva(pe.get_directory_rva(image_directory_entry_bound_import), section_data_virtual, true);
 
     //Check read in "read_pe" function raw bound import data size
     if(bound_import_data_len < sizeof(image_bound_import_descriptor))
-- 
2.43.0


From 71b80068df5edd3cda98e5d21bbde808ed57a248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:12 +0000
Subject: [PATCH 31/66] fix: resource entry name length was compared with the
 number of bytes available

---
 src/pe_lib/pe_resources.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index c4dfec8..22ee39a 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -367,7 +367,7 @@ const resource_directory process_resource_directory(const pe_base& pe, uint32_t
 
             //Check name length
             if(pe.section_data_length_from_rva(res_rva + nameEntry.NameOffset + sizeof(uint16_t), res_rva + nameEntry.NameOffset + sizeof(uint16_t), section_data_virtual, true)
-                < directory_name_length)
+                < directory_name_length * sizeof(uint16_t))
                 throw pe_exception("Incorrect resource directory", pe_exception::incorrect_resource_directory);
 
 #ifdef PE_BLISS_WINDOWS
-- 
2.43.0


From dd5eded57c5dba80da481f898c5873f78a62488e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:12 +0000
Subject: [PATCH 32/66] fix: resource entry IDs were truncated to 16 bits when
 read

---
 src/pe_lib/pe_resources.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index 22ee39a..83028fa 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -385,7 +385,7 @@ const resource_directory process_resource_directory(const pe_base& pe, uint32_t
         else
         {
             //Else - set directory ID
-            entry.set_id(dir_entry.NameItem.Id);
+            entry.set_id(dir_entry.NameItem.Name);
         }
 
         //If directory entry has another resource directory
-- 
2.43.0


From 91f95ad08b0a1d972367ac7933e48ddf84a7e321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:12 +0000
Subject: [PATCH 33/66] fix: empty resource data at the end of section could
 not be read

---
 src/pe_lib/pe_resources.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index 83028fa..c4aa1a4 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -400,14 +400,19 @@ const resource_directory process_resource_directory(const pe_base& pe, uint32_t
             image_resource_data_entry data_entry = pe.section_data_from_rva<image_resource_data_entry>(
                 res_rva + dir_entry.DirItem.OffsetToData, section_data_virtual, true);
 
-            //Check byte count that stated by data entry
-            if(pe.section_data_length_from_rva(data_entry.OffsetToData, data_entry.OffsetToData, section_data_virtual, true) < data_entry.Size)
-                throw pe_exception("Incorrect resource directory", pe_exception::incorrect_resource_directory);
+            std::string data;
+            //Empty data can be placed right after the end of section
+            if(data_entry.Size != 0)
+            {
+                //Check byte count that stated by data entry
+                if(pe.section_data_length_from_rva(data_entry.OffsetToData, data_entry.OffsetToData, section_data_virtual, true) < data_entry.Size)
+                    throw pe_exception("Incorrect resource directory", pe_exception::incorrect_resource_directory);
+
+                data.assign(pe.section_data_from_rva(data_entry.OffsetToData, section_data_virtual, true), data_entry.Size);
+            }
 
             //Add data entry to directory entry
-            entry.add_data_entry(resource_data_entry(
-                std::string(pe.section_data_from_rva(data_entry.OffsetToData, section_data_virtual, true), data_entry.Size),
-                data_entry.CodePage));
+            entry.add_data_entry(resource_data_entry(data, data_entry.CodePage));
         }
 
         //Save directory entry
-- 
2.43.0


From 893b327176d773dfe3d1fe8a08e75565795729f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:12 +0000
Subject: [PATCH 34/66] fix: assigning a resource entry to itself or from its
 own subtree lost or destroyed its contents

---
 src/pe_lib/pe_resources.cpp | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index c4aa1a4..ff25263 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -68,21 +68,14 @@ resource_directory_entry::resource_directory_entry(const resource_directory_entr
 //Copy assignment operator
 resource_directory_entry& resource_directory_entry::operator=(const resource_directory_entry& other)
 {
-    release();
-
-    id_ = other.id_;
-    name_ = other.name_;
-    includes_data_ = other.includes_data_;
-    named_ = other.named_;
+    //Copy first: other entry can be this one or be included in this one
+    resource_directory_entry copy(other);
 
-    //If other union'ed pointer is not zero
-    if(other.ptr_.data_)
-    {
-        if(other.includes_data())
-            ptr_.data_ = new resource_data_entry(*other.ptr_.data_);
-        else
-            ptr_.dir_ = new resource_directory(*other.ptr_.dir_);
-    }
+    std::swap(id_, copy.id_);
+    name_.swap(copy.name_);
+    std::swap(ptr_, copy.ptr_);
+    std::swap(includes_data_, copy.includes_data_);
+    std::swap(named_, copy.named_);
 
     return *this;
 }
@@ -189,16 +182,18 @@ void resource_directory_entry::set_id(uint32_t id)
 //Adds resource_data_entry
 void resource_directory_entry::add_data_entry(const resource_data_entry& entry)
 {
+    resource_data_entry* data = new resource_data_entry(entry); //Can be included in this entry
     release();
-    ptr_.data_ = new resource_data_entry(entry);
+    ptr_.data_ = data;
     includes_data_ = true;
 }
 
 //Adds resource_directory
 void resource_directory_entry::add_resource_directory(const resource_directory& dir)
 {
+    resource_directory* new_dir = new resource_directory(dir); //Can be included in this entry
     release();
-    ptr_.dir_ = new resource_directory(dir);
+    ptr_.dir_ = new_dir;
     includes_data_ = false;
 }
 
-- 
2.43.0


From 1ed00f34faf37d7d388d91b967ef0c53e63b7d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:12 +0000
Subject: [PATCH 35/66] fix: rebuild_resources truncated the length of long
 entry names

---
 src/pe_lib/pe_resources.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index ff25263..fd65815 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -501,6 +501,10 @@ void rebuild_resource_directory(pe_base& pe, section& resource_section, resource
         image_resource_directory_entry entry;
         if((*it).is_named())
         {
+            //Length of name is 16-bit
+            if((*it).get_name().length() > pe_utils::max_word)
+                throw pe_exception("Resource entry name is too long", pe_exception::resource_directory_entry_error);
+
             entry.NameItem.Name = 0x80000000 | (current_strings_pos - offset_from_section_start);
             uint16_t unicode_length = static_cast<uint16_t>((*it).get_name().length());
             memcpy(&raw_data[current_strings_pos], &unicode_length, sizeof(unicode_length));
-- 
2.43.0


From 7f354841cd2f52fe1af58c5cb629ec90b6dbc912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:44 +0000
Subject: [PATCH 36/66] fix: deeply nested resource directories exhausted the
 stack

---
 src/pe_lib/pe_resources.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index fd65815..1e88d2c 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -315,11 +315,18 @@ void resource_directory::get_minor_version(uint16_t minor_version)
     minor_version_ = minor_version;
 }
 
+//Maximum nesting level of resource directories (usually there are only three levels)
+static const uint32_t max_resource_directory_level = 256;
+
 //Processes resource directory
-const resource_directory process_resource_directory(const pe_base& pe, uint32_t res_rva, uint32_t offset_to_directory, std::set<uint32_t>& processed)
+const resource_directory process_resource_directory(const pe_base& pe, uint32_t res_rva, uint32_t offset_to_directory, std::set<uint32_t>& processed, uint32_t level)
 {
     resource_directory ret;
     
+    //Check nesting level, directories are processed recursively
+    if(level >= max_resource_directory_level)
+        throw pe_exception("Incorrect resource directory", pe_exception::incorrect_resource_directory);
+
     //Check for resource loops
     if(!processed.insert(offset_to_directory).second)
         throw pe_exception("Incorrect resource directory", pe_exception::incorrect_resource_directory);
@@ -387,7 +394,7 @@ const resource_directory process_resource_directory(const pe_base& pe, uint32_t
         const auto& dirEntry = dir_entry.DirItem.DirEntry;
         if(dirEntry.DataIsDirectory)
         {
-            entry.add_resource_directory(process_resource_directory(pe, res_rva, dirEntry.OffsetToDirectory, processed));
+            entry.add_resource_directory(process_resource_directory(pe, res_rva, dirEntry.OffsetToDirectory, processed, level + 1));
         }
         else
         {
@@ -647,7 +654,7 @@ const resource_directory get_resources(const pe_base& pe)
     std::set<uint32_t> processed;
     
     //Process all directories (recursion)
-    ret = process_resource_directory(pe, res_rva, 0, processed);
+    ret = process_resource_directory(pe, res_rva, 0, processed, 0);
 
     return ret;
 }
-- 
2.43.0


From 0415da6de1f23eb8c0c95210d27615b0d9cffe5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:39 +0000
Subject: [PATCH 37/66] fix: resource names were written unaligned when the
 offset of resource directory was not aligned

---
 src/pe_lib/pe_resources.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index 1e88d2c..45df72f 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -594,7 +594,7 @@ const image_directory rebuild_resources(pe_base& pe, resource_directory& info, s
         throw pe_exception("Empty resource directory", pe_exception::incorrect_resource_directory);
     
     uint32_t aligned_offset_from_section_start = pe_utils::align_up(offset_from_section_start, sizeof(uint32_t));
-    uint32_t needed_size_for_structures = aligned_offset_from_section_start - offset_from_section_start; //Calculate needed size for resource tables and data
+    uint32_t needed_size_for_structures = 0; //Calculate needed size for resource tables and data
     uint32_t needed_size_for_strings = 0;
     uint32_t needed_size_for_data = 0;
 
-- 
2.43.0


From 0998e89ed6cc4f5dcfe8d1cfa67c80254b7227bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:39 +0000
Subject: [PATCH 38/66] fix: rebuild_resources calculated data size for
 unsorted entries and could write behind the end of section data

---
 src/pe_lib/pe_resources.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/pe_lib/pe_resources.cpp b/src/pe_lib/pe_resources.cpp
index 45df72f..5ffcc1e 100644
--- a/src/pe_lib/pe_resources.cpp
+++ b/src/pe_lib/pe_resources.cpp
@@ -478,11 +478,6 @@ void rebuild_resource_directory(pe_base& pe, section& resource_section, resource
     dir.MinorVersion = root.get_minor_version();
     dir.TimeDateStamp = root.get_timestamp();
     
-    {
-        resource_directory::entry_list& entries = root.get_entry_list();
-        std::sort(entries.begin(), entries.end(), entry_sorter());
-    }
-
     //Calculate number of named and ID entries
     for(resource_directory::entry_list::const_iterator it = root.get_entry_list().begin(); it != root.get_entry_list().end(); ++it)
     {
@@ -564,6 +559,19 @@ void rebuild_resource_directory(pe_base& pe, section& resource_section, resource
     }
 }
 
+//Helper: sorts entries of all resource directories
+void sort_resource_directory(resource_directory& root)
+{
+    resource_directory::entry_list& entries = root.get_entry_list();
+    std::sort(entries.begin(), entries.end(), entry_sorter());
+
+    for(resource_directory::entry_list::iterator it = entries.begin(); it != entries.end(); ++it)
+    {
+        if(!(*it).includes_data())
+            sort_resource_directory((*it).get_resource_directory());
+    }
+}
+
 //Helper function to rebuild resource directory
 bool entry_sorter::operator()(const resource_directory_entry& entry1, const resource_directory_entry& entry2) const
 {
@@ -593,6 +601,9 @@ const image_directory rebuild_resources(pe_base& pe, resource_directory& info, s
     if(info.get_entry_list().empty())
         throw pe_exception("Empty resource directory", pe_exception::incorrect_resource_directory);
     
+    //Sort entries before calculating sizes: alignment of data depends on its order
+    sort_resource_directory(info);
+
     uint32_t aligned_offset_from_section_start = pe_utils::align_up(offset_from_section_start, sizeof(uint32_t));
     uint32_t needed_size_for_structures = 0; //Calculate needed size for resource tables and data
     uint32_t needed_size_for_strings = 0;
-- 
2.43.0


From b3b4bf58640efb37d7c155e7100100616cf2a74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:08 +0000
Subject: [PATCH 39/66] fix: add_resource read freed memory when the data to
 store belongs to the edited tree

---
 src/pe_lib/pe_resource_manager.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pe_lib/pe_resource_manager.cpp b/src/pe_lib/pe_resource_manager.cpp
index ca0a335..6e28afb 100644
--- a/src/pe_lib/pe_resource_manager.cpp
+++ b/src/pe_lib/pe_resource_manager.cpp
@@ -187,6 +187,11 @@ void pe_resource_manager::add_resource(const std::string& data, const std::wstri
 //Helper to add/replace resource
 void pe_resource_manager::add_resource(const std::string& data, resource_directory_entry& new_root_entry, const resource_directory::entry_finder& root_finder, resource_directory_entry& new_entry, const resource_directory::entry_finder& finder, uint32_t language, uint32_t codepage, uint32_t timestamp)
 {
+    //Create new data entry first: "data" may refer to the tree we're going to change
+    resource_directory_entry new_dir_data_entry;
+    new_dir_data_entry.add_data_entry(resource_data_entry(data, codepage));
+    new_dir_data_entry.set_id(language);
+
     //Search for resource type
     resource_directory::entry_list* entries = &root_dir_edit_.get_entry_list();
     resource_directory::entry_list::iterator it = std::find_if(entries->begin(), entries->end(), root_finder);
@@ -220,10 +225,6 @@ void pe_resource_manager::add_resource(const std::string& data, resource_directo
         entries->erase(it); //Erase it, if found
 
     //Add new data entry
-    resource_directory_entry new_dir_data_entry;
-    resource_data_entry data_dir(data, codepage);
-    new_dir_data_entry.add_data_entry(data_dir);
-    new_dir_data_entry.set_id(language);
     entries->push_back(new_dir_data_entry);
 }
 
-- 
2.43.0


From 5bab42ca2af9fa2fc9ff8f92a17556373d721d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:14 +0000
Subject: [PATCH 40/66] fix: new icons and cursors could take IDs already in
 use or never find any

---
 src/pe_lib/resource_cursor_icon_writer.cpp | 74 +++++++++-------------
 1 file changed, 30 insertions(+), 44 deletions(-)

diff --git a/src/pe_lib/resource_cursor_icon_writer.cpp b/src/pe_lib/resource_cursor_icon_writer.cpp
index faae7bd..b3fbc0a 100755
--- a/src/pe_lib/resource_cursor_icon_writer.cpp
+++ b/src/pe_lib/resource_cursor_icon_writer.cpp
@@ -107,60 +107,46 @@ const std::vector<uint16_t> resource_cursor_icon_writer::get_icon_or_cursor_free
 {
     //Search for available icon/cursor IDs
     std::vector<uint16_t> icon_cursor_id_list;
+    std::vector<uint32_t> id_list;
 
     try
     {
         //If any icon exists
         //List icon IDs
-        std::vector<uint32_t> id_list(res_.list_resource_ids(type));
+        id_list = res_.list_resource_ids(type);
         std::sort(id_list.begin(), id_list.end());
+    }
+    catch(const pe_exception&) //Entry not found
+    {
+    }
+
+    //If we are placing icon on free spaces
+    //I.e., icon IDs 1, 3, 4, 7, 8 already exist
+    //We'll place five icons on IDs 2, 5, 6, 9, 10
+    //Otherwise, we'll place it after all existing ones
+    uint32_t id = 1;
+    if(mode == icon_place_after_max_icon_id && !id_list.empty())
+        id = id_list.back() + 1;
 
-        //If we are placing icon on free spaces
-        //I.e., icon IDs 1, 3, 4, 7, 8 already exist
-        //We'll place five icons on IDs 2, 5, 6, 9, 10
-        if(mode != icon_place_after_max_icon_id)
+    std::vector<uint32_t>::const_iterator it = std::lower_bound(id_list.begin(), id_list.end(), id);
+    for(; icon_cursor_id_list.size() != count; ++id)
+    {
+        //Icon and cursor groups store 16-bit IDs only
+        if(id == 0 || id > 0xFFFF)
         {
-            if(!id_list.empty())
-            {
-                //Determine and list free icon IDs
-                for(std::vector<uint32_t>::const_iterator it = id_list.begin(); it != id_list.end(); ++it)
-                {
-                    if(it == id_list.begin())
-                    {
-                        if(*it > 1)
-                        {
-                            for(uint16_t i = 1; i != *it; ++i)
-                            {
-                                icon_cursor_id_list.push_back(i);
-                                if(icon_cursor_id_list.size() == count)
-                                    break;
-                            }
-                        }
-                    }
-                    else if(*(it - 1) - *it > 1)
-                    {
-                        for(uint16_t i = static_cast<uint16_t>(*(it - 1) + 1); i != static_cast<uint16_t>(*it); ++i)
-                        {
-                            icon_cursor_id_list.push_back(i);
-                            if(icon_cursor_id_list.size() == count)
-                                break;
-                        }
-                    }
-
-                    if(icon_cursor_id_list.size() == count)
-                        break;
-                }
-            }
+            if(type == pe_resource_viewer::resource_icon)
+                throw pe_exception("No free icon IDs left", pe_exception::resource_incorrect_icon);
+
+            throw pe_exception("No free cursor IDs left", pe_exception::resource_incorrect_cursor);
         }
 
-        uint32_t max_id = id_list.empty() ? 0 : *std::max_element(id_list.begin(), id_list.end());
-        for(uint32_t i = static_cast<uint32_t>(icon_cursor_id_list.size()); i != count; ++i)
-            icon_cursor_id_list.push_back(static_cast<uint16_t>(++max_id));
-    }
-    catch(const pe_exception&) //Entry not found
-    {
-        for(uint16_t i = 1; i != count + 1; ++i)
-            icon_cursor_id_list.push_back(i);
+        //Skip existing ID (it may be listed several times)
+        bool exists = false;
+        for(; it != id_list.end() && *it == id; ++it)
+            exists = true;
+
+        if(!exists)
+            icon_cursor_id_list.push_back(static_cast<uint16_t>(id));
     }
 
     return icon_cursor_id_list;
-- 
2.43.0


From 719b07d170e52995e8609161faa8cf16b90da603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:14 +0000
Subject: [PATCH 41/66] fix: adding images to an icon or cursor group could
 overflow the image count

---
 src/pe_lib/resource_cursor_icon_writer.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pe_lib/resource_cursor_icon_writer.cpp b/src/pe_lib/resource_cursor_icon_writer.cpp
index b3fbc0a..3280609 100755
--- a/src/pe_lib/resource_cursor_icon_writer.cpp
+++ b/src/pe_lib/resource_cursor_icon_writer.cpp
@@ -57,6 +57,10 @@ void resource_cursor_icon_writer::add_icon(const std::string& icon_file, const r
         if(icon_group_data.length() < sizeof(ico_header) + info->Count * sizeof(icon_group))
             throw pe_exception("Incorrect resource icon", pe_exception::resource_incorrect_icon);
 
+        //Check that icon count won't overflow
+        if(info->Count + icon_header->Count > 0xFFFF)
+            throw pe_exception("Too many icons in group", pe_exception::resource_incorrect_icon);
+
         icon_group_data.resize(sizeof(ico_header) + (info->Count + icon_header->Count) * sizeof(icon_group));
         info = reinterpret_cast<ico_header*>(&icon_group_data[0]); //In case if memory was reallocated
     }
@@ -199,6 +203,10 @@ void resource_cursor_icon_writer::add_cursor(const std::string& cursor_file, con
         if(cursor_group_data.length() < sizeof(cursor_header) + info->Count * sizeof(cursor_group))
             throw pe_exception("Incorrect resource cursor", pe_exception::resource_incorrect_cursor);
 
+        //Check that cursor count won't overflow
+        if(info->Count + cur_header->Count > 0xFFFF)
+            throw pe_exception("Too many cursors in group", pe_exception::resource_incorrect_cursor);
+
         cursor_group_data.resize(sizeof(cursor_header) + (info->Count + cur_header->Count) * sizeof(cursor_group));
         info = reinterpret_cast<cursor_header*>(&cursor_group_data[0]); //In case if memory was reallocated
     }
-- 
2.43.0


From 1b61058368e3fd485e7e60c73720c881455098d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:14 +0000
Subject: [PATCH 42/66] fix: add_icon and add_cursor read freed memory when the
 file belongs to the edited tree

---
 src/pe_lib/resource_cursor_icon_writer.cpp | 4 ++--
 src/pe_lib/resource_cursor_icon_writer.h   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pe_lib/resource_cursor_icon_writer.cpp b/src/pe_lib/resource_cursor_icon_writer.cpp
index 3280609..2a99eca 100755
--- a/src/pe_lib/resource_cursor_icon_writer.cpp
+++ b/src/pe_lib/resource_cursor_icon_writer.cpp
@@ -11,7 +11,7 @@ resource_cursor_icon_writer::resource_cursor_icon_writer(pe_resource_manager& re
 {}
 
 //Add icon helper
-void resource_cursor_icon_writer::add_icon(const std::string& icon_file, const resource_data_info* group_icon_info /* or zero */, resource_directory_entry& new_icon_group_entry, const resource_directory::entry_finder& finder, uint32_t language, icon_place_mode mode, uint32_t codepage, uint32_t timestamp)
+void resource_cursor_icon_writer::add_icon(const std::string icon_file /* copy, may belong to the edited tree */, const resource_data_info* group_icon_info /* or zero */, resource_directory_entry& new_icon_group_entry, const resource_directory::entry_finder& finder, uint32_t language, icon_place_mode mode, uint32_t codepage, uint32_t timestamp)
 {
     //Check icon for correctness
     if(icon_file.length() < sizeof(ico_header))
@@ -157,7 +157,7 @@ const std::vector<uint16_t> resource_cursor_icon_writer::get_icon_or_cursor_free
 }
 
 //Add cursor helper
-void resource_cursor_icon_writer::add_cursor(const std::string& cursor_file, const resource_data_info* group_cursor_info /* or zero */, resource_directory_entry& new_cursor_group_entry, const resource_directory::entry_finder& finder, uint32_t language, icon_place_mode mode, uint32_t codepage, uint32_t timestamp)
+void resource_cursor_icon_writer::add_cursor(const std::string cursor_file /* copy, may belong to the edited tree */, const resource_data_info* group_cursor_info /* or zero */, resource_directory_entry& new_cursor_group_entry, const resource_directory::entry_finder& finder, uint32_t language, icon_place_mode mode, uint32_t codepage, uint32_t timestamp)
 {
     //Check cursor for correctness
     if(cursor_file.length() < sizeof(cursor_header))
diff --git a/src/pe_lib/resource_cursor_icon_writer.h b/src/pe_lib/resource_cursor_icon_writer.h
index 2a0fd26..f81b82f 100644
--- a/src/pe_lib/resource_cursor_icon_writer.h
+++ b/src/pe_lib/resource_cursor_icon_writer.h
@@ -56,13 +56,13 @@ private:
     pe_resource_manager& res_;
 
     //Add icon helper
-    void add_icon(const std::string& icon_file, const resource_data_info* group_icon_info /* or zero */, resource_directory_entry& new_icon_group_entry, const resource_directory::entry_finder& finder, uint32_t language, icon_place_mode mode, uint32_t codepage, uint32_t timestamp);
+    void add_icon(const std::string icon_file /* copy, may belong to the edited tree */, const resource_data_info* group_icon_info /* or zero */, resource_directory_entry& new_icon_group_entry, const resource_directory::entry_finder& finder, uint32_t language, icon_place_mode mode, uint32_t codepage, uint32_t timestamp);
     
     //Remove icon group helper
     void remove_icons_from_icon_group(const std::string& icon_group_data, uint32_t language);
 
     //Add cursor helper
-    void add_cursor(const std::string& cursor_file, const resource_data_info* group_cursor_info /* or zero */, resource_directory_entry& new_cursor_group_entry, const resource_directory::entry_finder& finder, uint32_t language, icon_place_mode mode, uint32_t codepage, uint32_t timestamp);
+    void add_cursor(const std::string cursor_file /* copy, may belong to the edited tree */, const resource_data_info* group_cursor_info /* or zero */, resource_directory_entry& new_cursor_group_entry, const resource_directory::entry_finder& finder, uint32_t language, icon_place_mode mode, uint32_t codepage, uint32_t timestamp);
 
     //Remove cursor group helper
     void remove_cursors_from_cursor_group(const std::string& cursor_group_data, uint32_t language);
-- 
2.43.0


From 261abf6434771989bc95d3d08098445315c9a9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:14 +0000
Subject: [PATCH 43/66] fix: height of cursors of 128 pixels and more was read
 incorrectly

---
 src/pe_lib/resource_cursor_icon_reader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/resource_cursor_icon_reader.cpp b/src/pe_lib/resource_cursor_icon_reader.cpp
index c519124..7f73ef7 100644
--- a/src/pe_lib/resource_cursor_icon_reader.cpp
+++ b/src/pe_lib/resource_cursor_icon_reader.cpp
@@ -298,7 +298,7 @@ uint16_t resource_cursor_icon_reader::format_cursor_headers(std::string& cur_dat
         cursordirentry direntry;
         direntry.ColorCount = 0; //OK
         direntry.Width = static_cast<uint8_t>(group->Width);
-        direntry.Height = static_cast<uint8_t>(group->Height)  / 2;
+        direntry.Height = static_cast<uint8_t>(group->Height / 2);
         direntry.Reserved = 0;
 
         //Now read hotspot data from cursor data directory
@@ -441,7 +441,7 @@ bool resource_cursor_icon_reader::check_cursor_presence(const std::string& curso
             cursordirentry direntry;
             direntry.ColorCount = 0; //OK
             direntry.Width = static_cast<uint8_t>(group->Width);
-            direntry.Height = static_cast<uint8_t>(group->Height)  / 2;
+            direntry.Height = static_cast<uint8_t>(group->Height / 2);
             direntry.Reserved = 0;
 
             if(raw_cursor_data.length() < 2 * sizeof(uint16_t))
-- 
2.43.0


From 398ccebc7ef1f60425aa549f79cb384d6f65c448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:14 +0000
Subject: [PATCH 44/66] fix: reading a single cursor read behind the end of
 short cursor groups

---
 src/pe_lib/resource_cursor_icon_reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/resource_cursor_icon_reader.cpp b/src/pe_lib/resource_cursor_icon_reader.cpp
index 7f73ef7..128b789 100644
--- a/src/pe_lib/resource_cursor_icon_reader.cpp
+++ b/src/pe_lib/resource_cursor_icon_reader.cpp
@@ -420,7 +420,7 @@ bool resource_cursor_icon_reader::check_cursor_presence(const std::string& curso
     const cursor_header* info = reinterpret_cast<const cursor_header*>(cursor_group_resource_data.data());
 
     //Check resource data length
-    if(cursor_group_resource_data.length() < sizeof(cursor_header) + sizeof(cursor_group))
+    if(cursor_group_resource_data.length() < sizeof(cursor_header) + sizeof(cursor_group) * info->Count)
         throw pe_exception("Incorrect resource cursor", pe_exception::resource_incorrect_cursor);
 
     //Iterate over all cursors listed in cursor group
-- 
2.43.0


From fab0d362cadcb180ef24344cd60dcf79cc98a056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:14 +0000
Subject: [PATCH 45/66] fix: icon and cursor groups read by language index took
 images of other languages

---
 src/pe_lib/resource_cursor_icon_reader.cpp | 38 ++++++++++++++++++----
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/pe_lib/resource_cursor_icon_reader.cpp b/src/pe_lib/resource_cursor_icon_reader.cpp
index 128b789..3c13560 100644
--- a/src/pe_lib/resource_cursor_icon_reader.cpp
+++ b/src/pe_lib/resource_cursor_icon_reader.cpp
@@ -7,10 +7,30 @@ namespace pe_bliss
 {
 using namespace pe_win;
 
+//Returns language having given index in language list
+static uint32_t get_language_by_index(const pe_resource_viewer::resource_language_list& languages, uint32_t index)
+{
+    if(languages.size() <= index)
+        throw pe_exception("Resource data entry not found", pe_exception::resource_data_entry_not_found);
+
+    return languages.at(index);
+}
+
 resource_cursor_icon_reader::resource_cursor_icon_reader(const pe_resource_viewer& res)
     :res_(res)
 {}
 
+//Returns data of icon or cursor listed in its group, which was found by index in language directory
+//Icon (cursor) having language of the group is preferred
+static const resource_data_info get_group_item(const pe_resource_viewer& res, pe_resource_viewer::resource_type type, uint32_t id, uint32_t language, uint32_t index)
+{
+    const pe_resource_viewer::resource_language_list languages(res.list_resource_languages(type, id));
+    if(std::find(languages.begin(), languages.end(), language) != languages.end())
+        return res.get_resource_data_by_id(language, type, id);
+
+    return res.get_resource_data_by_id(type, id, index);
+}
+
 //Helper function of creating icon headers from ICON_GROUP resource data
 //Returns icon count
 uint16_t resource_cursor_icon_reader::format_icon_headers(std::string& ico_data, const std::string& resource_data)
@@ -88,6 +108,7 @@ const std::string resource_cursor_icon_reader::get_icon_by_name(const std::wstri
 
     //Get resource by name and index
     const std::string data = res_.get_resource_data_by_name(pe_resource_viewer::resource_icon_group, name, index).get_data();
+    const uint32_t language = get_language_by_index(res_.list_resource_languages(pe_resource_viewer::resource_icon_group, name), index);
 
     //Create icon headers
     uint16_t icon_count = format_icon_headers(ret, data);
@@ -96,7 +117,7 @@ const std::string resource_cursor_icon_reader::get_icon_by_name(const std::wstri
     for(uint16_t i = 0; i != icon_count; ++i)
     {
         const icon_group* group = reinterpret_cast<const icon_group*>(data.data() + sizeof(ico_header) + i * sizeof(icon_group));
-        ret += res_.get_resource_data_by_id(pe_resource_viewer::resource_icon, group->Number, index).get_data();
+        ret += get_group_item(res_, pe_resource_viewer::resource_icon, group->Number, language, index).get_data();
     }
 
     return ret;
@@ -151,6 +172,7 @@ const std::string resource_cursor_icon_reader::get_icon_by_id(uint32_t id, uint3
 
     //Get resource by id and index
     const std::string data = res_.get_resource_data_by_id(pe_resource_viewer::resource_icon_group, id, index).get_data();
+    const uint32_t language = get_language_by_index(res_.list_resource_languages(pe_resource_viewer::resource_icon_group, id), index);
 
     //Create icon headers
     uint16_t icon_count = format_icon_headers(ret, data);
@@ -159,7 +181,7 @@ const std::string resource_cursor_icon_reader::get_icon_by_id(uint32_t id, uint3
     for(uint16_t i = 0; i != icon_count; ++i)
     {
         const icon_group* group = reinterpret_cast<const icon_group*>(data.data() + sizeof(ico_header) + i * sizeof(icon_group));
-        ret += res_.get_resource_data_by_id(pe_resource_viewer::resource_icon, group->Number, index).get_data();
+        ret += get_group_item(res_, pe_resource_viewer::resource_icon, group->Number, language, index).get_data();
     }
 
     return ret;
@@ -304,7 +326,7 @@ uint16_t resource_cursor_icon_reader::format_cursor_headers(std::string& cur_dat
         //Now read hotspot data from cursor data directory
         const std::string cursor = index == 0xFFFFFFFF
             ? res_.get_resource_data_by_id(language, pe_resource_viewer::resource_cursor, group->Number).get_data()
-            : res_.get_resource_data_by_id(pe_resource_viewer::resource_cursor, group->Number, index).get_data();
+            : get_group_item(res_, pe_resource_viewer::resource_cursor, group->Number, language, index).get_data();
         if(cursor.length() < 2 * sizeof(uint16_t))
             throw pe_exception("Incorrect resource cursor", pe_exception::resource_incorrect_cursor);
 
@@ -354,15 +376,16 @@ const std::string resource_cursor_icon_reader::get_cursor_by_name(const std::wst
 
     //Get resource by name and index
     const std::string resource_data = res_.get_resource_data_by_name(pe_resource_viewer::resource_cursor_group, name, index).get_data();
+    const uint32_t language = get_language_by_index(res_.list_resource_languages(pe_resource_viewer::resource_cursor_group, name), index);
 
     //Create cursor headers
-    uint16_t cursor_count = format_cursor_headers(ret, resource_data, 0, index);
+    uint16_t cursor_count = format_cursor_headers(ret, resource_data, language, index);
 
     //Add cursor data
     for(uint16_t i = 0; i != cursor_count; ++i)
     {
         const cursor_group* group = reinterpret_cast<const cursor_group*>(resource_data.data() + sizeof(cursor_header) + i * sizeof(cursor_group));
-        ret += res_.get_resource_data_by_id(pe_resource_viewer::resource_cursor, group->Number, index).get_data().substr(2 * sizeof(uint16_t));
+        ret += get_group_item(res_, pe_resource_viewer::resource_cursor, group->Number, language, index).get_data().substr(2 * sizeof(uint16_t));
     }
 
     return ret;
@@ -396,15 +419,16 @@ const std::string resource_cursor_icon_reader::get_cursor_by_id(uint32_t id, uin
 
     //Get resource by ID and index
     const std::string resource_data = res_.get_resource_data_by_id(pe_resource_viewer::resource_cursor_group, id, index).get_data();
+    const uint32_t language = get_language_by_index(res_.list_resource_languages(pe_resource_viewer::resource_cursor_group, id), index);
 
     //Create cursor headers
-    uint16_t cursor_count = format_cursor_headers(ret, resource_data, 0, index);
+    uint16_t cursor_count = format_cursor_headers(ret, resource_data, language, index);
 
     //Add cursor data
     for(uint16_t i = 0; i != cursor_count; ++i)
     {
         const cursor_group* group = reinterpret_cast<const cursor_group*>(resource_data.data() + sizeof(cursor_header) + i * sizeof(cursor_group));
-        ret += res_.get_resource_data_by_id(pe_resource_viewer::resource_cursor, group->Number, index).get_data().substr(2 * sizeof(uint16_t));
+        ret += get_group_item(res_, pe_resource_viewer::resource_cursor, group->Number, language, index).get_data().substr(2 * sizeof(uint16_t));
     }
 
     return ret;
-- 
2.43.0


From 0c2337616f9d7041506af1831149e0b34cb4ca54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:05 +0000
Subject: [PATCH 46/66] fix: string tables were read behind their end

---
 src/pe_lib/resource_string_table_reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/resource_string_table_reader.cpp b/src/pe_lib/resource_string_table_reader.cpp
index 5ebbe61..da95df5 100644
--- a/src/pe_lib/resource_string_table_reader.cpp
+++ b/src/pe_lib/resource_string_table_reader.cpp
@@ -38,7 +38,7 @@ const resource_string_list resource_string_table_reader::parse_string_list(uint3
         passed_bytes += sizeof(uint16_t); //WORD containing string length
 
         //Check resource data length again
-        if(resource_data.length() < string_length + passed_bytes)
+        if(resource_data.length() < string_length * sizeof(uint16_t) + passed_bytes)
             throw pe_exception("Incorrect resource string table", pe_exception::resource_incorrect_string_table);
 
         if(string_length)
-- 
2.43.0


From 76b27d69ccfb89a86e1dc1a77f282217a612984c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:05 +0000
Subject: [PATCH 47/66] fix: short message tables were refused

---
 src/pe_lib/resource_message_list_reader.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pe_lib/resource_message_list_reader.cpp b/src/pe_lib/resource_message_list_reader.cpp
index a94f297..80b672d 100644
--- a/src/pe_lib/resource_message_list_reader.cpp
+++ b/src/pe_lib/resource_message_list_reader.cpp
@@ -14,16 +14,19 @@ const resource_message_list resource_message_list_reader::parse_message_list(con
 {
     resource_message_list ret;
 
+    //Size of message table header (number of blocks)
+    static const uint32_t size_of_table_header = sizeof(message_resource_data) - sizeof(message_resource_block);
+
     //Check resource data length
-    if(resource_data.length() < sizeof(message_resource_data))
+    if(resource_data.length() < size_of_table_header)
         throw pe_exception("Incorrect resource message table", pe_exception::resource_incorrect_message_table);
 
     const message_resource_data* message_data = reinterpret_cast<const message_resource_data*>(resource_data.data());
 
     //Check resource data length more carefully and some possible overflows
     if(message_data->NumberOfBlocks >= pe_utils::max_dword / sizeof(message_resource_block)
-        || !pe_utils::is_sum_safe(message_data->NumberOfBlocks * sizeof(message_resource_block), sizeof(message_resource_data))
-        || resource_data.length() < message_data->NumberOfBlocks * sizeof(message_resource_block) + sizeof(message_resource_data))
+        || !pe_utils::is_sum_safe(message_data->NumberOfBlocks * sizeof(message_resource_block), size_of_table_header)
+        || resource_data.length() < message_data->NumberOfBlocks * sizeof(message_resource_block) + size_of_table_header)
         throw pe_exception("Incorrect resource message table", pe_exception::resource_incorrect_message_table);
 
     //Iterate over all message resource blocks
@@ -31,7 +34,7 @@ const resource_message_list resource_message_list_reader::parse_message_list(con
     {
         //Get block
         const message_resource_block* block =
-            reinterpret_cast<const message_resource_block*>(resource_data.data() + sizeof(message_resource_data) - sizeof(message_resource_block) + sizeof(message_resource_block) * i);
+            reinterpret_cast<const message_resource_block*>(resource_data.data() + size_of_table_header + sizeof(message_resource_block) * i);
 
         //Check resource data length and IDs
         if(resource_data.length() < block->OffsetToEntries || block->LowId > block->HighId)
-- 
2.43.0


From 9b002ee4be3d5320eb100996c4d862210a00f438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:05 +0000
Subject: [PATCH 48/66] fix: message tables with message ID 0xFFFFFFFF were
 refused

---
 src/pe_lib/resource_message_list_reader.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/resource_message_list_reader.cpp b/src/pe_lib/resource_message_list_reader.cpp
index 80b672d..52f6571 100644
--- a/src/pe_lib/resource_message_list_reader.cpp
+++ b/src/pe_lib/resource_message_list_reader.cpp
@@ -43,7 +43,7 @@ const resource_message_list resource_message_list_reader::parse_message_list(con
         uint32_t current_pos = 0;
         static const uint32_t size_of_entry_headers = 4;
         //List all message resource entries in block
-        for(uint32_t curr_id = block->LowId; curr_id <= block->HighId; curr_id++)
+        for(uint32_t curr_id = block->LowId; ; curr_id++)
         {
             //Check resource data length and some possible overflows
             if(!pe_utils::is_sum_safe(block->OffsetToEntries, current_pos)
@@ -91,6 +91,10 @@ const resource_message_list resource_message_list_reader::parse_message_list(con
                     )));
             }
 
+            //Last possible ID is 0xFFFFFFFF, so the counter must not be incremented behind the end of block
+            if(curr_id == block->HighId)
+                break;
+
             //Go to next entry
             current_pos += entry->Length;
         }
-- 
2.43.0


From 107c51060110cb713f64d91cbf3c7c3ab327d984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:42 +0000
Subject: [PATCH 49/66] fix: characters skipped by iconv were silently replaced
 with null bytes

---
 src/pe_lib/utils.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pe_lib/utils.cpp b/src/pe_lib/utils.cpp
index 5ee8117..ea3e513 100644
--- a/src/pe_lib/utils.cpp
+++ b/src/pe_lib/utils.cpp
@@ -43,7 +43,8 @@ const u16string pe_utils::to_ucs2(const std::wstring& str)
     size_t result = iconv(conv, const_cast<char**>(reinterpret_cast<const char**>(&in_pos)), &inbytesleft, reinterpret_cast<char**>(&out_pos), &outbytesleft);
     iconv_close(conv);
     
-    if(result == static_cast<size_t>(-1))
+    //Some characters can be skipped by iconv (for example, language tags)
+    if(result == static_cast<size_t>(-1) || outbytesleft)
         throw pe_exception("Iconv error", pe_exception::encoding_convertion_error);
 
     return ret;
@@ -69,7 +70,8 @@ const std::wstring pe_utils::from_ucs2(const u16string& str)
     size_t result = iconv(conv, const_cast<char**>(reinterpret_cast<const char**>(&in_pos)), &inbytesleft, reinterpret_cast<char**>(&out_pos), &outbytesleft);
     iconv_close(conv);
 
-    if(result == static_cast<size_t>(-1))
+    //Some characters can be skipped by iconv (for example, language tags)
+    if(result == static_cast<size_t>(-1) || outbytesleft)
         throw pe_exception("Iconv error", pe_exception::encoding_convertion_error);
 
     return ret;
-- 
2.43.0


From 76b7b8e2cfe85b95512516828a4446d6ff921219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:42 +0000
Subject: [PATCH 50/66] fix: version info string values were read behind the
 end of resource data

---
 src/pe_lib/resource_version_info_reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/resource_version_info_reader.cpp b/src/pe_lib/resource_version_info_reader.cpp
index 404914e..d34fc6e 100644
--- a/src/pe_lib/resource_version_info_reader.cpp
+++ b/src/pe_lib/resource_version_info_reader.cpp
@@ -165,7 +165,7 @@ const file_version_info resource_version_info_reader::get_version_info(lang_stri
                         //Get value position
                         uint32_t value_pos = get_version_block_value_pos(string_pos, reinterpret_cast<const unicode16_t*>(string_block->Key));
                         //Check it
-                        if(resource_data.length() < value_pos + string_block->ValueLength)
+                        if(resource_data.length() < value_pos + string_block->ValueLength * sizeof(unicode16_t))
                             throw pe_exception("Incorrect resource version info", pe_exception::resource_incorrect_version_info);
 
                         //Get UNICODE string value
-- 
2.43.0


From 6144fbd26e7580661438f8e6afc525cb206f3a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:42 +0000
Subject: [PATCH 51/66] fix: incomplete version info translations were read
 behind the end of resource data

---
 src/pe_lib/resource_version_info_reader.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/resource_version_info_reader.cpp b/src/pe_lib/resource_version_info_reader.cpp
index d34fc6e..172d413 100644
--- a/src/pe_lib/resource_version_info_reader.cpp
+++ b/src/pe_lib/resource_version_info_reader.cpp
@@ -221,7 +221,8 @@ const file_version_info resource_version_info_reader::get_version_info(lang_stri
                     //Get its value position
                     uint32_t value_pos = get_version_block_value_pos(var_table_pos, reinterpret_cast<const unicode16_t*>(var_table->Key));
                     //Cherck value length
-                    if(resource_data.length() < value_pos + var_table->ValueLength)
+                    if(resource_data.length() < value_pos + var_table->ValueLength
+                        || var_table->ValueLength % (sizeof(uint16_t) * 2))
                         throw_incorrect_version_info();
 
                     //Get list of translations: pairs of LANGUAGE_ID - CODEPAGE_ID
-- 
2.43.0


From 183bb2fddc534083ab50e84090553d493276b322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:42 +0000
Subject: [PATCH 52/66] fix: lengths of long version info were truncated to 16
 bits

---
 src/pe_lib/resource_version_info_writer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pe_lib/resource_version_info_writer.cpp b/src/pe_lib/resource_version_info_writer.cpp
index 5456bf8..24701bd 100644
--- a/src/pe_lib/resource_version_info_writer.cpp
+++ b/src/pe_lib/resource_version_info_writer.cpp
@@ -3,6 +3,7 @@
 #include "pe_structures.h"
 #include "resource_internal.h"
 #include "utils.h"
+#include "pe_exception.h"
 #include "pe_resource_manager.h"
 #include "resource_version_info_reader.h"
 
@@ -62,6 +63,10 @@ void resource_version_info_writer::set_version_info(const file_version_info& fil
         total_version_info_length += static_cast<uint32_t>(translations.size() * sizeof(uint16_t) * 2);
     }
 
+    //Check that length of version data fits root block header
+    if(total_version_info_length > static_cast<uint16_t>(-1))
+        throw pe_exception("Version info is too long", pe_exception::resource_incorrect_version_info);
+
     //Resize version data buffer
     version_data.resize(total_version_info_length);
 
-- 
2.43.0


From 5f8624858694a1790830a4fbb0750e0d29865df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:04 +0000
Subject: [PATCH 53/66] fix: version info editor did not remove string tables
 named in upper case

---
 src/pe_lib/version_info_editor.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/pe_lib/version_info_editor.cpp b/src/pe_lib/version_info_editor.cpp
index 8bc8403..f7aa5e3 100644
--- a/src/pe_lib/version_info_editor.cpp
+++ b/src/pe_lib/version_info_editor.cpp
@@ -137,14 +137,14 @@ void version_info_editor::remove_translation(const std::wstring& translation)
 
 void version_info_editor::remove_translation(uint16_t language_id, uint16_t codepage_id)
 {
+    //Erase string tables of this translation (if exist)
+    //Their names can be written in different ways, for example "041904b0" and "041904B0"
+    for(lang_string_values_map::iterator table_it = strings_edit_.begin(); table_it != strings_edit_.end();)
     {
-        //Erase string table (if exists)
-        std::wstringstream ss;
-        ss << std::hex
-            << std::setw(4) << std::setfill(L'0') << language_id
-            << std::setw(4) << std::setfill(L'0') << codepage_id;
-        
-        strings_edit_.erase(ss.str());
+        if(translation_from_string((*table_it).first) == translation_pair(language_id, codepage_id))
+            strings_edit_.erase(table_it++);
+        else
+            ++table_it;
     }
 
     //Find and erase translation from translations table
-- 
2.43.0


From 962ce4439707681b2cf62b77382ce0756842013f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:04 +0000
Subject: [PATCH 54/66] fix: version info editor removed only one of repeated
 translations

---
 src/pe_lib/version_info_editor.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/pe_lib/version_info_editor.cpp b/src/pe_lib/version_info_editor.cpp
index f7aa5e3..3caf7c1 100644
--- a/src/pe_lib/version_info_editor.cpp
+++ b/src/pe_lib/version_info_editor.cpp
@@ -151,13 +151,12 @@ void version_info_editor::remove_translation(uint16_t language_id, uint16_t code
     std::pair<translation_values_map::iterator, translation_values_map::iterator>
         it_pair = translations_edit_.equal_range(language_id);
 
-    for(translation_values_map::iterator it = it_pair.first; it != it_pair.second; ++it)
+    for(translation_values_map::iterator it = it_pair.first; it != it_pair.second;)
     {
         if((*it).second == codepage_id)
-        {
-            translations_edit_.erase(it);
-            break;
-        }
+            translations_edit_.erase(it++);
+        else
+            ++it;
     }
 }
 }
-- 
2.43.0


From a1a168cd4774451d4dd9f5a8b1d5c00049552dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:28 +0000
Subject: [PATCH 55/66] fix: version information blocks with lengths above
 0xFFFC were read forever

---
 src/pe_lib/resource_version_info_reader.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pe_lib/resource_version_info_reader.cpp b/src/pe_lib/resource_version_info_reader.cpp
index 172d413..b7cdfd1 100644
--- a/src/pe_lib/resource_version_info_reader.cpp
+++ b/src/pe_lib/resource_version_info_reader.cpp
@@ -182,7 +182,7 @@ const file_version_info resource_version_info_reader::get_version_info(lang_stri
 #endif
 
                     //Navigate to next string block
-                    string_pos += pe_utils::align_up(string_block->Length, sizeof(uint32_t));
+                    string_pos += pe_utils::align_up(static_cast<uint32_t>(string_block->Length), sizeof(uint32_t));
                 }
 
 #ifdef PE_BLISS_WINDOWS
@@ -192,7 +192,7 @@ const file_version_info resource_version_info_reader::get_version_info(lang_stri
 #endif
 
                 //Navigate to next string table block
-                string_table_pos += pe_utils::align_up(string_table->Length, sizeof(uint32_t));
+                string_table_pos += pe_utils::align_up(static_cast<uint32_t>(string_table->Length), sizeof(uint32_t));
             }
         }
         else if(info_type == VarFileInfo) //If we encountered VarFileInfo
@@ -237,7 +237,7 @@ const file_version_info resource_version_info_reader::get_version_info(lang_stri
                 }
 
                 //Navigate to next var block
-                var_table_pos += pe_utils::align_up(var_table->Length, sizeof(uint32_t));
+                var_table_pos += pe_utils::align_up(static_cast<uint32_t>(var_table->Length), sizeof(uint32_t));
             }
         }
         else
@@ -246,7 +246,7 @@ const file_version_info resource_version_info_reader::get_version_info(lang_stri
         }
 
         //Navigate to next element in root block
-        child_pos += pe_utils::align_up(block->Length, sizeof(uint32_t));
+        child_pos += pe_utils::align_up(static_cast<uint32_t>(block->Length), sizeof(uint32_t));
     }
 
     return ret;
-- 
2.43.0


From 5d911d5e08c8bd57670ff04a76edccdd318e8d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:53 +0000
Subject: [PATCH 56/66] fix: bitmaps with long info headers, color masks or
 without pixels got wrong pixel offsets

---
 src/pe_lib/resource_bitmap_reader.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/resource_bitmap_reader.cpp b/src/pe_lib/resource_bitmap_reader.cpp
index a3952d4..2c21c91 100644
--- a/src/pe_lib/resource_bitmap_reader.cpp
+++ b/src/pe_lib/resource_bitmap_reader.cpp
@@ -52,10 +52,16 @@ const std::string resource_bitmap_reader::create_bitmap(const std::string& resou
         //Get bitmap info header
         const bitmapinfoheader* info = reinterpret_cast<const bitmapinfoheader*>(resource_data.data());
 
+        //Skip the rest of a longer info header (BITMAPV4HEADER, BITMAPV5HEADER)
+        if(info->biSize > sizeof(bitmapinfoheader))
+            header.bfOffBits += info->biSize - static_cast<uint32_t>(sizeof(bitmapinfoheader));
+        else if(info->biCompression == 3 /* BI_BITFIELDS */)
+            header.bfOffBits += 3 * sizeof(uint32_t); //Color masks follow the info header
+
         //If color table is present, skip it
         if(info->biClrUsed != 0)
             header.bfOffBits += 4 * info->biClrUsed; //Add this size to offset to bitmap bits
-        else if(info->biBitCount <= 8)
+        else if(info->biBitCount != 0 && info->biBitCount <= 8)
             header.bfOffBits += 4 * static_cast<uint32_t>(std::pow(2.f, info->biBitCount)); //Add this size to offset to bitmap bits
     }
 
-- 
2.43.0


From b4c37ee56dd088c9c8360b332de8c350db5b35d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:40 +0000
Subject: [PATCH 57/66] fix: debug directory at the end of a section was
 refused

---
 src/pe_lib/pe_debug.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pe_lib/pe_debug.cpp b/src/pe_lib/pe_debug.cpp
index 5dc2f6e..72c25cd 100644
--- a/src/pe_lib/pe_debug.cpp
+++ b/src/pe_lib/pe_debug.cpp
@@ -836,6 +836,11 @@ const debug_info_list get_debug_information(const pe_base& pe)
 
         //Go to next debug entry
         current_pos += sizeof(image_debug_directory);
+
+        //Don't read anything behind the last debug entry
+        if(current_pos - pe.get_directory_rva(image_directory_entry_debug) >= pe.get_directory_size(image_directory_entry_debug))
+            break;
+
         directory = pe.section_data_from_rva<image_debug_directory>(current_pos, section_data_virtual, true);
     }
 
-- 
2.43.0


From d47dd7b22182d913432bff933eabbbe258de7e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:40 +0000
Subject: [PATCH 58/66] fix: names of COFF file symbols were read from a wrong
 place

---
 src/pe_lib/pe_debug.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_debug.cpp b/src/pe_lib/pe_debug.cpp
index 72c25cd..2d3c5b3 100644
--- a/src/pe_lib/pe_debug.cpp
+++ b/src/pe_lib/pe_debug.cpp
@@ -677,7 +677,7 @@ const debug_info_list get_debug_information(const pe_base& pe)
                         if(sym->StorageClass == image_sym_class_file)
                         {
                             //Save file name, it is situated just after this IMAGE_SYMBOL structure
-                            std::string file_name(reinterpret_cast<const char*>(debug_data.data() + (i + 1) * sizeof(image_symbol)), sym->NumberOfAuxSymbols * sizeof(image_symbol));
+                            std::string file_name(reinterpret_cast<const char*>(debug_data.data() + (i + 1) * sizeof(image_symbol) + coff->LvaToFirstSymbol), sym->NumberOfAuxSymbols * sizeof(image_symbol));
                             pe_utils::strip_nullbytes(file_name);
                             symbol.set_file_name(file_name);
 
-- 
2.43.0


From 2381a28c7cce92a0179e8b04b1a9b19a986aa70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:40 +0000
Subject: [PATCH 59/66] fix: auxiliary records of skipped COFF symbols were
 decoded as symbols

---
 src/pe_lib/pe_debug.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/pe_lib/pe_debug.cpp b/src/pe_lib/pe_debug.cpp
index 2d3c5b3..153215f 100644
--- a/src/pe_lib/pe_debug.cpp
+++ b/src/pe_lib/pe_debug.cpp
@@ -737,11 +737,10 @@ const debug_info_list get_debug_information(const pe_base& pe)
 
                             //Save symbol info
                             coff_info.add_symbol(symbol);
-
-                            //Move to next symbol
-                            i += sym->NumberOfAuxSymbols;
-                            continue;
                         }
+
+                        //Move to next symbol
+                        i += sym->NumberOfAuxSymbols;
                     }
 
                     info.set_advanced_debug_info(coff_info);
-- 
2.43.0


From 3a67f0e19697cf59d40a974a7ac2a3aab581179a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:40 +0000
Subject: [PATCH 60/66] fix: miscellaneous debug data with a short length was
 read behind its end

---
 src/pe_lib/pe_debug.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_debug.cpp b/src/pe_lib/pe_debug.cpp
index 153215f..1f5f0c3 100644
--- a/src/pe_lib/pe_debug.cpp
+++ b/src/pe_lib/pe_debug.cpp
@@ -816,7 +816,8 @@ const debug_info_list get_debug_information(const pe_base& pe)
                     const image_debug_misc* misc_data = reinterpret_cast<const image_debug_misc*>(debug_data.data());
 
                     //Check misc data length
-                    if(debug_data.length() < misc_data->Length /* Total length of record */)
+                    if(debug_data.length() < misc_data->Length /* Total length of record */
+                        || misc_data->Length < sizeof(image_debug_misc) - 1 /* BYTE[1] in the end of structure */)
                         throw pe_exception("Incorrect debug directory", pe_exception::incorrect_debug_directory);
 
                     //Save advanced information
-- 
2.43.0


From 9c2276cc2d5aedcbc989415df4cbe7c3ef09b92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:40 +0000
Subject: [PATCH 61/66] fix: CodeView debug information without structures was
 not reported

---
 src/pe_lib/pe_debug.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_debug.cpp b/src/pe_lib/pe_debug.cpp
index 1f5f0c3..4a50df5 100644
--- a/src/pe_lib/pe_debug.cpp
+++ b/src/pe_lib/pe_debug.cpp
@@ -298,7 +298,7 @@ const coff_debug_info debug_info::get_advanced_debug_info<coff_debug_info>() con
 void debug_info::set_advanced_info_type(advanced_info_type type)
 {
     free_present_advanced_info();
-    if(advanced_info_type_ >= advanced_info_codeview_4_0) //Don't set info type for those types, which have advanced info structures
+    if(type >= advanced_info_codeview_4_0) //Don't set info type for those types, which have advanced info structures
         advanced_info_type_ = type;
 }
 
-- 
2.43.0


From 8e6406769f56144fca94e245afe3a2161f9bf1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:40 +0000
Subject: [PATCH 62/66] fix: assigning debug information to itself lost its
 data

---
 src/pe_lib/pe_debug.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pe_lib/pe_debug.cpp b/src/pe_lib/pe_debug.cpp
index 4a50df5..f545e41 100644
--- a/src/pe_lib/pe_debug.cpp
+++ b/src/pe_lib/pe_debug.cpp
@@ -138,6 +138,9 @@ debug_info::debug_info(const debug_info& info)
 //Copy assignment operator
 debug_info& debug_info::operator=(const debug_info& info)
 {
+    if(this == &info)
+        return *this;
+
     copy_advanced_info(info);
 
     characteristics_ = info.characteristics_;
-- 
2.43.0


From 87c1b237cb93a909b0160b6bd5bdbdec630759db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:40 +0000
Subject: [PATCH 63/66] fix: exception entries were read behind the end of
 exception directory

---
 src/pe_lib/pe_exception_directory.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pe_lib/pe_exception_directory.cpp b/src/pe_lib/pe_exception_directory.cpp
index f613746..32ad9e0 100644
--- a/src/pe_lib/pe_exception_directory.cpp
+++ b/src/pe_lib/pe_exception_directory.cpp
@@ -148,6 +148,13 @@ const exception_entry_list get_exception_directory_data(const pe_base& pe)
 
         //Go to next exception entry
         current_pos += sizeof(image_runtime_function_entry);
+
+        //Don't read anything behind the last exception entry
+        uint32_t read_size = current_pos - pe.get_directory_rva(image_directory_entry_exception);
+        if(read_size >= pe.get_directory_size(image_directory_entry_exception)
+            || pe.get_directory_size(image_directory_entry_exception) - read_size < sizeof(image_runtime_function_entry))
+            break;
+
         exception_table = pe.section_data_from_rva<image_runtime_function_entry>(current_pos, section_data_virtual, true);
     }
 
-- 
2.43.0


From 122ff20446ca52ca03ef5afcd701ecf1526017c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:08 +0000
Subject: [PATCH 64/66] fix: rich data was read behind the end of DOS stub

---
 src/pe_lib/pe_rich_data.cpp | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/src/pe_lib/pe_rich_data.cpp b/src/pe_lib/pe_rich_data.cpp
index 807915c..901f03e 100644
--- a/src/pe_lib/pe_rich_data.cpp
+++ b/src/pe_lib/pe_rich_data.cpp
@@ -60,7 +60,7 @@ const rich_data_list get_rich_data(const pe_base& pe)
     //Search for rich data overlay ID
     const char* begin = &rich_overlay[0];
     const char* end = begin + rich_overlay.length();
-    for(; begin != end; ++begin)
+    for(; static_cast<size_t>(end - begin) >= sizeof(uint32_t); ++begin)
     {
         if(*reinterpret_cast<const uint32_t*>(begin) == rich_overlay_id)
         {
@@ -73,7 +73,7 @@ const rich_data_list get_rich_data(const pe_base& pe)
     if(found)
     {
         //Check remaining length
-        if(static_cast<size_t>(end - begin) < sizeof(uint32_t))
+        if(static_cast<size_t>(end - begin) < sizeof(uint32_t) * 2)
             return ret;
 
         //The XOR key is after "Rich" word, we should get it
@@ -82,9 +82,12 @@ const rich_data_list get_rich_data(const pe_base& pe)
         //True if rich data was found
         found = false;
 
+        //Rich data ends where "Rich" word starts
+        end = begin;
+
         //Second search for signature "DanS"
         begin = &rich_overlay[0];
-        for(; begin != end; ++begin)
+        for(; static_cast<size_t>(end - begin) >= sizeof(uint32_t); ++begin)
         {
             if((*reinterpret_cast<const uint32_t*>(begin) ^ xorkey) == 0x536e6144) //"DanS"
             {
@@ -94,30 +97,21 @@ const rich_data_list get_rich_data(const pe_base& pe)
         }
 
         //If second signature is found
-        if(found)
+        if(found && static_cast<size_t>(end - begin) >= sizeof(uint32_t) * 4)
         {
-            begin += sizeof(uint32_t) * 3;
+            begin += sizeof(uint32_t) * 4;
             //List all rich data structures
-            while(begin < end)
+            while(static_cast<size_t>(end - begin) >= sizeof(uint32_t) * 2)
             {
-                begin += sizeof(uint32_t);
-                if(begin >= end)
-                    break;
-
-                //Check for rich overlay data end ("Rich" word reached)
-                if(*reinterpret_cast<const uint32_t*>(begin) == rich_overlay_id)
-                    break;
-
                 //Create rich_data structure
                 rich_data data;
                 data.set_number((*reinterpret_cast<const uint32_t*>(begin) ^ xorkey) >> 16);
                 data.set_version((*reinterpret_cast<const uint32_t*>(begin) ^ xorkey) & 0xFFFF);
 
                 begin += sizeof(uint32_t);
-                if(begin >= end)
-                    break;
 
                 data.set_times(*reinterpret_cast<const uint32_t*>(begin) ^ xorkey);
+                begin += sizeof(uint32_t);
 
                 //Save rich data structure
                 ret.push_back(data);
-- 
2.43.0


From b3e1eab3cf35c674d4479700120405a7da3fd6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:10 +0000
Subject: [PATCH 65/66] fix: rebuild_imports cut section data placed behind the
 import directory

---
 src/pe_lib/pe_imports.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_imports.cpp b/src/pe_lib/pe_imports.cpp
index 0f942e0..e8ada4a 100644
--- a/src/pe_lib/pe_imports.cpp
+++ b/src/pe_lib/pe_imports.cpp
@@ -460,6 +460,7 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
         throw pe_exception("Insufficient space for import directory", pe_exception::insufficient_space);
 
     std::string& raw_data = import_section.get_raw_data();
+    const std::string::size_type original_raw_data_length = raw_data.length();
 
     //This will be done only if image_section is the last section of image or for section with unaligned raw length of data
     if(raw_data.length() < needed_size + import_settings.get_offset_from_section_start())
@@ -734,7 +735,8 @@ const image_directory rebuild_imports_base(pe_base& pe, const imported_functions
 
     //Strip data a little, if we saved some place
     //We're allocating more space than needed, if present original IAT and IAT are saved
-    raw_data.resize(current_pos_for_original_iat);
+    //Data, which was in section before, must be kept
+    raw_data.resize(current_pos_for_original_iat < original_raw_data_length ? original_raw_data_length : current_pos_for_original_iat);
 
     //Adjust section raw and virtual sizes
     pe.recalculate_section_sizes(import_section, import_settings.auto_strip_last_section_enabled());
-- 
2.43.0


From 0bd07841cd2ebf88db838a7d30b8e14333d7899e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:10 +0000
Subject: [PATCH 66/66] fix: image with bound imports in a section with
 stripped nullbytes could not be written

---
 src/pe_lib/pe_rebuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pe_lib/pe_rebuilder.cpp b/src/pe_lib/pe_rebuilder.cpp
index 1642c48..561232e 100644
--- a/src/pe_lib/pe_rebuilder.cpp
+++ b/src/pe_lib/pe_rebuilder.cpp
@@ -91,7 +91,7 @@ void rebuild_pe(pe_base& pe, std::ostream& out, bool strip_dos_header, bool chan
 
     if(save_bound_import && pe.has_bound_import())
     {
-        if(pe.section_data_length_from_rva(pe.get_directory_rva(image_directory_entry_bound_import), pe.get_directory_rva(image_directory_entry_bound_import), section_data_raw, true)
+        if(pe.section_data_length_from_rva(pe.get_directory_rva(image_directory_entry_bound_import), pe.get_directory_rva(image_directory_entry_bound_import), section_data_virtual, true)
             < pe.get_directory_size(image_directory_entry_bound_import))
             throw pe_exception("Incorrect bound import directory", pe_exception::incorrect_bound_import_directory);
     }
-- 
2.43.0

