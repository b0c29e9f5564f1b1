From 378222059c3e5b8f5a9ceaa998c4bd6353c27909 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 01/31] fix: codec decode accepted characters above 0x7f

The invalid character test compared a (signed) char with an uint8_t, which is
never equal for negative characters, so base-16 and base-64 decoded them.
---
 src/milo/primitive/detail/codec/base_16.h |  4 ++--
 src/milo/primitive/detail/codec/base_64.h | 16 ++++++++--------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/milo/primitive/detail/codec/base_16.h b/src/milo/primitive/detail/codec/base_16.h
index 24f16ce..ab5da47 100644
--- a/src/milo/primitive/detail/codec/base_16.h
+++ b/src/milo/primitive/detail/codec/base_16.h
@@ -131,7 +131,7 @@ namespace milo::primitive::detail
                 auto b_0 = decode(c_0);
                 
                 [[unlikely]]
-                if (c_0 == b_0)
+                if (uint8_t(c_0) == b_0)
                 {
                     a_error = error::codec_base_16_decode;
                     return 0;
@@ -151,7 +151,7 @@ namespace milo::primitive::detail
                 auto b_1 = decode(c_1);
                 
                 [[unlikely]]
-                if (c_0 == b_0 || c_1 == b_1)
+                if (uint8_t(c_0) == b_0 || uint8_t(c_1) == b_1)
                 {
                     a_error = error::codec_base_16_decode;
                     return from_ptr - a_from_ptr;
diff --git a/src/milo/primitive/detail/codec/base_64.h b/src/milo/primitive/detail/codec/base_64.h
index 93d3446..7ee8007 100644
--- a/src/milo/primitive/detail/codec/base_64.h
+++ b/src/milo/primitive/detail/codec/base_64.h
@@ -188,10 +188,10 @@ namespace milo::primitive::detail
                 
                 [[unlikely]]
                 if (
-                    c_0 == b_0 ||
-                    c_1 == b_1 ||
-                    c_2 == b_2 ||
-                    c_3 == b_3)
+                    uint8_t(c_0) == b_0 ||
+                    uint8_t(c_1) == b_1 ||
+                    uint8_t(c_2) == b_2 ||
+                    uint8_t(c_3) == b_3)
                 {
                     a_error = error::codec_base_64_decode;
                     return to_ptr - a_to_ptr;
@@ -220,11 +220,11 @@ namespace milo::primitive::detail
                 
                 [[unlikely]]
                 if (
-                    c_0 == b_0 ||
-                    c_1 == b_1 ||
+                    uint8_t(c_0) == b_0 ||
+                    uint8_t(c_1) == b_1 ||
                     (p_0 && !p_1) ||
-                    (c_2 == b_2 && !p_0) ||
-                    (c_3 == b_3 && !p_1))
+                    (uint8_t(c_2) == b_2 && !p_0) ||
+                    (uint8_t(c_3) == b_3 && !p_1))
                 {
                     a_error = error::codec_base_64_decode;
                     return to_ptr - a_to_ptr;
-- 
2.43.0


From bc3c628af5bad4ebf40f0810e77aec3c1377e656 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 02/31] fix: base-16 decode of odd sized input

The pair loop started at index 1 on an already advanced output pointer: one
output byte was never written and the last character pair was ignored.
---
 src/milo/primitive/detail/codec/base_16.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/milo/primitive/detail/codec/base_16.h b/src/milo/primitive/detail/codec/base_16.h
index ab5da47..6485e6c 100644
--- a/src/milo/primitive/detail/codec/base_16.h
+++ b/src/milo/primitive/detail/codec/base_16.h
@@ -143,7 +143,7 @@ namespace milo::primitive::detail
                 from_ptr += 1;
             }
             
-            for (size_t i = last_size; i < full_size; i += 1)
+            for (size_t i = 0; i < full_size; i += 1)
             {
                 auto c_0 = char(from_ptr[0]);
                 auto c_1 = char(from_ptr[1]);
-- 
2.43.0


From ecab6434ac774af6eb6501919ca04741fa8c1761 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:38:27 +0000
Subject: [PATCH 03/31] fix: base-16 decode error returned the number of
 consumed characters

The result is the number of decoded bytes, as for base-64; containers were
resized to characters that were never decoded.
---
 src/milo/primitive/detail/codec/base_16.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/milo/primitive/detail/codec/base_16.h b/src/milo/primitive/detail/codec/base_16.h
index 6485e6c..7a1bdd2 100644
--- a/src/milo/primitive/detail/codec/base_16.h
+++ b/src/milo/primitive/detail/codec/base_16.h
@@ -154,7 +154,7 @@ namespace milo::primitive::detail
                 if (uint8_t(c_0) == b_0 || uint8_t(c_1) == b_1)
                 {
                     a_error = error::codec_base_16_decode;
-                    return from_ptr - a_from_ptr;
+                    return i + last_size;
                 }
                 
                 to_ptr[i] = t_to(b_0 << 4 | b_1);
-- 
2.43.0


From 9f971ab3e8666b5b9e6c86aafa75853e1c76bb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 04/31] fix: cipher one-liners taking pointers did not compile

---
 src/milo/primitive/cipher/apie.h | 36 ++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/milo/primitive/cipher/apie.h b/src/milo/primitive/cipher/apie.h
index 77a4dbd..8d7986a 100644
--- a/src/milo/primitive/cipher/apie.h
+++ b/src/milo/primitive/cipher/apie.h
@@ -57,6 +57,42 @@ namespace milo::primitive::cipher
     
     public:
         
+        /**
+         * Constructs the object.
+         *
+         * @tparam t_key
+         * Key type.
+         * @tparam t_iv
+         * Iv type.
+         * @param a_key_ptr
+         * Key pointer.
+         * @param a_key_size
+         * Key size.
+         * @param a_iv_ptr
+         * Iv pointer.
+         * @param a_iv_size
+         * Iv size.
+         */
+        template<
+            meta::byte t_key,
+            meta::byte t_iv
+        >
+        constexpr
+        apie(
+            const t_key* a_key_ptr,
+            size_t a_key_size,
+            const t_iv* a_iv_ptr,
+            size_t a_iv_size
+        ) noexcept(true)
+        {
+            initialize(
+                a_key_ptr,
+                a_key_size,
+                a_iv_ptr,
+                a_iv_size
+            );
+        }
+        
         /**
          * Constructs the object.
          *
-- 
2.43.0


From a566385145c243971153b8cb07b859742002f8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 05/31] fix: aead encrypt one-liners returning sizes did not
 compile

---
 src/milo/primitive/aead/apie.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/milo/primitive/aead/apie.h b/src/milo/primitive/aead/apie.h
index d92a702..6d4f270 100644
--- a/src/milo/primitive/aead/apie.h
+++ b/src/milo/primitive/aead/apie.h
@@ -935,7 +935,7 @@ namespace milo::primitive::aead
             a_digest_ptr
         );
         
-        return container::tuple{
+        return container::tuple<size_t, size_t>{
             ciphertext_size,
             digest_size
         };
@@ -1015,7 +1015,7 @@ namespace milo::primitive::aead
             a_digest
         );
         
-        return container::tuple{
+        return container::tuple<size_t, size_t>{
             ciphertext_size,
             digest_size
         };
-- 
2.43.0


From 0a29de89f6acd7419702036a28e64ff4d2256750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 06/31] fix: aead decrypt one-liners terminated on verification
 failure

---
 src/milo/primitive/aead/apie.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/milo/primitive/aead/apie.h b/src/milo/primitive/aead/apie.h
index 6d4f270..699a63f 100644
--- a/src/milo/primitive/aead/apie.h
+++ b/src/milo/primitive/aead/apie.h
@@ -1159,7 +1159,7 @@ namespace milo::primitive::aead
         t_error& ...a_error
     ) noexcept(
     (
-        sizeof...(t_error) == 0
+        sizeof...(t_error) == 1
     )
     ) -> size_t
     requires
@@ -1252,7 +1252,7 @@ namespace milo::primitive::aead
         t_error& ...a_error
     ) noexcept(
     (
-        sizeof...(t_error) == 0 &&
+        sizeof...(t_error) == 1 &&
         meta::container_static<t_plaintext>
     )
     ) -> size_t
-- 
2.43.0


From 0e250b9f6c8de78d09955a4b5bf52cf2ea0e4411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 07/31] fix: aead digest was wrong when only aad was processed

---
 src/milo/primitive/aead/apie.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/milo/primitive/aead/apie.h b/src/milo/primitive/aead/apie.h
index 699a63f..3b860c1 100644
--- a/src/milo/primitive/aead/apie.h
+++ b/src/milo/primitive/aead/apie.h
@@ -149,6 +149,8 @@ namespace milo::primitive::aead
                 return;
             }
             
+            do_finalize_aad();
+            
             m_impl.finalize();
             m_finalized = true;
         }
-- 
2.43.0


From 02009c1bd386fdce35ec960a5114962afe8b9f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 08/31] fix: signed char buffers did not compile

---
 src/milo/meta.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/milo/meta.h b/src/milo/meta.h
index 4613eca..9deae10 100644
--- a/src/milo/meta.h
+++ b/src/milo/meta.h
@@ -232,7 +232,8 @@ namespace milo::meta
     using type_map_char_ptr_to_unsigned_char_ptr = type_map<
         t_arg,
         unsigned char*,
-        char*
+        char*,
+        signed char*
     >;
     
     template<
@@ -241,7 +242,8 @@ namespace milo::meta
     using type_map_const_char_ptr_to_const_unsigned_char_ptr = type_map<
         t_arg,
         const unsigned char*,
-        const char*
+        const char*,
+        const signed char*
     >;
     
     template<typename t_0>
-- 
2.43.0


From 32eb31cf7fd201384af42d40910eec3396b5abc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 09/31] fix: headers could not be included in more than one
 translation unit

---
 src/milo/internal/arch/x86_64.h | 1 +
 src/milo/literal.h              | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/milo/internal/arch/x86_64.h b/src/milo/internal/arch/x86_64.h
index 1122314..a84eed5 100644
--- a/src/milo/internal/arch/x86_64.h
+++ b/src/milo/internal/arch/x86_64.h
@@ -37,6 +37,7 @@ namespace milo::internal
     
     #if MILO_INTERNAL_ARCH_X86_64
     
+    inline
     auto
     arch_x86_64_cpuid(
         uint32_t* a_info_ptr,
diff --git a/src/milo/literal.h b/src/milo/literal.h
index 71d4b71..153e89f 100644
--- a/src/milo/literal.h
+++ b/src/milo/literal.h
@@ -11,6 +11,7 @@
 
 namespace milo::literal
 {
+    inline
     auto
     operator "" _b(
         const char* a_ptr,
@@ -23,6 +24,7 @@ namespace milo::literal
         };
     }
     
+    inline
     auto
     operator "" _bv(
         const char* a_ptr,
-- 
2.43.0


From cc3a9c75c6009e5ad15273afcab05306f2111391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 10/31] fix: avx was used when not enabled by the operating
 system

---
 src/milo/internal/arch/x86_64.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/milo/internal/arch/x86_64.h b/src/milo/internal/arch/x86_64.h
index a84eed5..b06de98 100644
--- a/src/milo/internal/arch/x86_64.h
+++ b/src/milo/internal/arch/x86_64.h
@@ -171,18 +171,25 @@ namespace milo::internal
             return m_features[0].ecx & (1 << 20);
         }
         
+        auto
+        osxsave(
+        ) const noexcept(true) -> bool
+        {
+            return m_features[0].ecx & (1 << 27);
+        }
+        
         auto
         avx_1(
         ) const noexcept(true) -> bool
         {
-            return m_features[0].ecx & (1 << 28);
+            return m_features[0].ecx & (1 << 28) && osxsave();
         }
         
         auto
         avx_2(
         ) const noexcept(true) -> bool
         {
-            return m_features[1].ebx & (1 << 5);
+            return m_features[1].ebx & (1 << 5) && osxsave();
         }
         
         auto
-- 
2.43.0


From e0fbfa33b576f30843079284336c562c545ecff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 11/31] fix: benchmark pattern was not matched against the
 whole name

---
 app/include/milo/app/pattern.h | 77 +++++++++++-----------------------
 1 file changed, 24 insertions(+), 53 deletions(-)

diff --git a/app/include/milo/app/pattern.h b/app/include/milo/app/pattern.h
index fac4d9e..2d81f8d 100644
--- a/app/include/milo/app/pattern.h
+++ b/app/include/milo/app/pattern.h
@@ -24,70 +24,41 @@ namespace milo::app
         requires meta::same<t_message, std::string, std::string_view>;
     }
     {
-        if (a_pattern == "*")
-        {
-            return true;
-        }
-        
-        if (a_pattern.empty() && a_message.empty())
-        {
-            return true;
-        }
-        
-        if (a_pattern.empty() && !a_message.empty())
-        {
-            return false;
-        }
-        
         size_t message_pos = 0;
         size_t pattern_pos = 0;
         
-        while (true)
+        /*
+         * Position following the last star and the message position it is retried from.
+         */
+        
+        size_t message_star = 0;
+        size_t pattern_star = t_pattern::npos;
+        
+        while (message_pos < a_message.size())
         {
-            auto pattern_pos_beg = a_pattern.find_first_not_of(
-                '*',
-                pattern_pos
-            );
-            
-            if (pattern_pos_beg == t_pattern::npos)
+            if (pattern_pos < a_pattern.size() && a_pattern[pattern_pos] == '*')
             {
-                if (pattern_pos < a_pattern.size())
-                {
-                    return a_pattern.ends_with('*');
-                }
-                else
-                {
-                    return a_message.size() == message_pos;
-                }
+                pattern_pos += 1;
+                pattern_star = pattern_pos;
+                message_star = message_pos;
             }
-            
-            auto pattern_pos_end = a_pattern.find_first_of(
-                '*',
-                pattern_pos_beg
-            );
-            
-            if (pattern_pos_end == t_pattern::npos)
+            else if (pattern_pos < a_pattern.size() && a_pattern[pattern_pos] == a_message[message_pos])
             {
-                pattern_pos_end = a_pattern.size();
+                pattern_pos += 1;
+                message_pos += 1;
             }
-            
-            auto pattern = a_pattern.data() + pattern_pos_beg;
-            auto pattern_size = pattern_pos_end - pattern_pos_beg;
-            
-            pattern_pos = pattern_pos_beg;
-            message_pos = a_message.find(
-                pattern,
-                message_pos,
-                pattern_size
-            );
-            
-            if (message_pos == t_message::npos)
+            else if (pattern_star != t_pattern::npos)
+            {
+                message_star += 1;
+                message_pos = message_star;
+                pattern_pos = pattern_star;
+            }
+            else
             {
                 return false;
             }
-            
-            pattern_pos += pattern_size;
-            message_pos += pattern_size;
         }
+        
+        return a_pattern.find_first_not_of('*', pattern_pos) == t_pattern::npos;
     }
 }
-- 
2.43.0


From 737e3509e824137937aed035ac742cad19643a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 12/31] fix: app aborted when invoked with no arguments

---
 app/include/milo/app/app.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/app/include/milo/app/app.h b/app/include/milo/app/app.h
index 1fd466f..dc9870c 100644
--- a/app/include/milo/app/app.h
+++ b/app/include/milo/app/app.h
@@ -88,7 +88,10 @@ namespace milo::app
                     }
                 );
                 
-                str.pop_back();
+                if (!str.empty())
+                {
+                    str.pop_back();
+                }
                 
                 return str;
             }
-- 
2.43.0


From f6b24ba84ee3edb5e17dc1706d699fa1860dffc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 13/31] fix: app parameters were looked up by name prefix

---
 app/include/milo/app/app.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/app/include/milo/app/app.h b/app/include/milo/app/app.h
index dc9870c..ef73e9e 100644
--- a/app/include/milo/app/app.h
+++ b/app/include/milo/app/app.h
@@ -214,7 +214,9 @@ namespace milo::app
                 {
                     if (it->starts_with("--"))
                     {
-                        if (it->substr(2).starts_with(a_name))
+                        auto token = it->substr(2);
+                        
+                        if (token.substr(0, token.find_first_of('=')) == a_name)
                         {
                             break;
                         }
-- 
2.43.0


From 265f1de5b38dac975260e63b54e0a1aa89c50004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:33 +0000
Subject: [PATCH 14/31] fix: benchmark cpu cycles overflowed

---
 app/include/milo/app/command/benchmark.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/app/include/milo/app/command/benchmark.h b/app/include/milo/app/command/benchmark.h
index 3e7118e..56e035d 100644
--- a/app/include/milo/app/command/benchmark.h
+++ b/app/include/milo/app/command/benchmark.h
@@ -233,8 +233,9 @@ namespace milo::app::command::benchmark
             if (processed != 0 && cpu_clock != 0)
             {
                 auto billion = 1000 * 1000 * 1000;
-                auto cpu_cycles_per_call = double(cpu_clock * nanoseconds) / double(billion * repeats_time);
-                auto cpu_cycles_per_byte = double(cpu_clock * nanoseconds) / double(billion * processed);
+                auto cpu_cycles = double(cpu_clock) * double(nanoseconds) / double(billion);
+                auto cpu_cycles_per_call = cpu_cycles / double(repeats_time);
+                auto cpu_cycles_per_byte = cpu_cycles / double(processed);
                 
                 result["metrics"]["cpu"] = {
                     {"cycles_per_call", cpu_cycles_per_call},
-- 
2.43.0


From 573c4b13c42f71284a650b9a467c0c958c3e6e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 15/31] fix: kdf benchmark crashed on empty key

---
 app/include/milo/app/command/benchmark.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/include/milo/app/command/benchmark.h b/app/include/milo/app/command/benchmark.h
index 56e035d..a9de594 100644
--- a/app/include/milo/app/command/benchmark.h
+++ b/app/include/milo/app/command/benchmark.h
@@ -482,7 +482,7 @@ namespace milo::app::command::benchmark
             a_key_size
         );
         
-        return a_key_ptr[0];
+        return a_key_size > 0 ? a_key_ptr[0] : char(0);
     }
     
     template<
@@ -543,7 +543,7 @@ namespace milo::app::command::benchmark
             a_key_size
         );
         
-        return a_key_ptr[0];
+        return a_key_size > 0 ? a_key_ptr[0] : char(0);
     }
     
     template<
-- 
2.43.0


From a21ccff0450dcdbb62e277e19c9d3bba647bc5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 16/31] fix: app did not escape json strings

---
 app/include/milo/app/type.h | 57 ++++++++++++++++++++++++++++++++++---
 1 file changed, 53 insertions(+), 4 deletions(-)

diff --git a/app/include/milo/app/type.h b/app/include/milo/app/type.h
index 6ed3931..0134879 100644
--- a/app/include/milo/app/type.h
+++ b/app/include/milo/app/type.h
@@ -817,6 +817,35 @@ namespace milo::app::type
         throw std::logic_error("Attempt to call [] operator on non index-able type.");
     }
     
+    auto
+    to_json(
+        std::stringstream& a_stream,
+        std::string_view a_string
+    ) -> void
+    {
+        constexpr auto digits = "0123456789abcdef";
+        
+        a_stream << '\"';
+        
+        for (auto c: a_string)
+        {
+            if (c == '\"' || c == '\\')
+            {
+                a_stream << '\\' << c;
+            }
+            else if (c >= 0 && c < 0x20)
+            {
+                a_stream << "\\u00" << digits[c >> 4] << digits[c & 0x0f];
+            }
+            else
+            {
+                a_stream << c;
+            }
+        }
+        
+        a_stream << '\"';
+    }
+    
     auto
     to_json(
         std::stringstream& a_stream,
@@ -865,9 +894,19 @@ namespace milo::app::type
                     item.as<array>()
                 );
             }
-            else if (item.is<std::string_view>() || item.is<std::string>())
+            else if (item.is<std::string_view>())
             {
-                a_stream << '\"' << item << "\"";
+                to_json(
+                    a_stream,
+                    item.as<std::string_view>()
+                );
+            }
+            else if (item.is<std::string>())
+            {
+                to_json(
+                    a_stream,
+                    item.as<std::string>()
+                );
             }
             else
             {
@@ -912,9 +951,19 @@ namespace milo::app::type
                     item.as<array>()
                 );
             }
-            else if (item.is<std::string_view>() || item.is<std::string>())
+            else if (item.is<std::string_view>())
             {
-                a_stream << '\"' << item << "\"";
+                to_json(
+                    a_stream,
+                    item.as<std::string_view>()
+                );
+            }
+            else if (item.is<std::string>())
+            {
+                to_json(
+                    a_stream,
+                    item.as<std::string>()
+                );
             }
             else
             {
-- 
2.43.0


From dc2b97196a4b0688521e1f820693896f5e613cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:09 +0000
Subject: [PATCH 17/31] fix: aead class tag was wrong when the end of aad was
 not announced

---
 .../detail/aead/chacha/chacha_20_poly_1305.h     | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/milo/primitive/detail/aead/chacha/chacha_20_poly_1305.h b/src/milo/primitive/detail/aead/chacha/chacha_20_poly_1305.h
index 630103f..b9d4285 100644
--- a/src/milo/primitive/detail/aead/chacha/chacha_20_poly_1305.h
+++ b/src/milo/primitive/detail/aead/chacha/chacha_20_poly_1305.h
@@ -50,6 +50,8 @@ namespace milo::primitive::detail
         uint64_t m_aad_processed_size;
         
         uint64_t m_edd_processed_size;
+        
+        bool m_aadover = false;
     
     public:
         
@@ -119,6 +121,7 @@ namespace milo::primitive::detail
             
             m_aad_processed_size = 0;
             m_edd_processed_size = 0;
+            m_aadover = false;
         }
         
         template<
@@ -145,10 +148,17 @@ namespace milo::primitive::detail
             constexpr size_t buffer_zero_size = 16;
             constexpr uint8_t buffer_zero[buffer_zero_size]{};
             
+            if (m_aadover)
+            {
+                return;
+            }
+            
             m_mac.update(
                 buffer_zero,
                 (buffer_zero_size - m_aad_processed_size % buffer_zero_size) & 0b1111
             );
+            
+            m_aadover = true;
         }
         
         template<
@@ -162,6 +172,8 @@ namespace milo::primitive::detail
             t_ciphertext* a_ciphertext_ptr
         ) noexcept(true) -> size_t
         {
+            aadover();
+            
             auto ciphertext_size = m_cipher.encrypt(
                 a_plaintext_ptr,
                 a_plaintext_size,
@@ -203,6 +215,8 @@ namespace milo::primitive::detail
             t_plaintext* a_plaintext_ptr
         ) noexcept(true) -> size_t
         {
+            aadover();
+            
             m_mac.update(
                 a_ciphertext_ptr,
                 a_ciphertext_size
@@ -240,6 +254,8 @@ namespace milo::primitive::detail
             constexpr size_t buffer_zero_size = 16;
             constexpr uint8_t buffer_zero[buffer_zero_size]{};
             
+            aadover();
+            
             m_mac.update(
                 buffer_zero,
                 (buffer_zero_size - m_edd_processed_size % buffer_zero_size) & 0b1111
-- 
2.43.0


From f50f2a3aacd0bd4313ff5147f57d5bb0907e1f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:12 +0000
Subject: [PATCH 18/31] fix: avx was used when its state was not enabled by the
 operating system

---
 src/milo/internal/arch/x86_64.h          | 36 ++++++++++++++++++++++--
 src/milo/internal/arch/x86_64/xgetbv.asm | 21 ++++++++++++++
 2 files changed, 55 insertions(+), 2 deletions(-)
 create mode 100644 src/milo/internal/arch/x86_64/xgetbv.asm

diff --git a/src/milo/internal/arch/x86_64.h b/src/milo/internal/arch/x86_64.h
index b06de98..f967893 100644
--- a/src/milo/internal/arch/x86_64.h
+++ b/src/milo/internal/arch/x86_64.h
@@ -29,6 +29,12 @@ namespace milo::internal
         uint32_t a_ecx
     ) noexcept(true) -> void;
     
+    extern "C"
+    auto
+    milo_internal_arch_x86_64_xgetbv(
+        uint32_t a_ecx
+    ) noexcept(true) -> uint32_t;
+    
     #endif
     
     /*
@@ -63,6 +69,25 @@ namespace milo::internal
         #endif
     }
     
+    inline
+    auto
+    arch_x86_64_xgetbv(
+        uint32_t a_ecx
+    ) noexcept(true) -> uint32_t
+    {
+        #if MILO_INTERNAL_ASM && MILO_INTERNAL_ARCH_X86_64
+        
+        return milo_internal_arch_x86_64_xgetbv(
+            a_ecx
+        );
+        
+        #else
+        
+        return 0;
+        
+        #endif
+    }
+    
     inline
     const
     class arch_x86_64_info_basic
@@ -178,18 +203,25 @@ namespace milo::internal
             return m_features[0].ecx & (1 << 27);
         }
         
+        auto
+        osymm(
+        ) const noexcept(true) -> bool
+        {
+            return osxsave() && (arch_x86_64_xgetbv(0) & 6) == 6;
+        }
+        
         auto
         avx_1(
         ) const noexcept(true) -> bool
         {
-            return m_features[0].ecx & (1 << 28) && osxsave();
+            return m_features[0].ecx & (1 << 28) && osymm();
         }
         
         auto
         avx_2(
         ) const noexcept(true) -> bool
         {
-            return m_features[1].ebx & (1 << 5) && osxsave();
+            return m_features[1].ebx & (1 << 5) && osymm();
         }
         
         auto
diff --git a/src/milo/internal/arch/x86_64/xgetbv.asm b/src/milo/internal/arch/x86_64/xgetbv.asm
new file mode 100644
index 0000000..c689667
--- /dev/null
+++ b/src/milo/internal/arch/x86_64/xgetbv.asm
@@ -0,0 +1,21 @@
+; asmsyntax=nasm
+
+bits 64
+
+%include "abi.asm"
+
+global milo_internal_arch_x86_64_xgetbv
+
+; BEG arch_x86_64_xgetbv
+
+section .text
+milo_internal_arch_x86_64_xgetbv:
+; Args:
+;   0 -> index of extended control register
+; Returns:
+;   Low double-word of extended control register
+    mov     rcx,    abi_arg_0
+    xgetbv
+    ret
+
+; END arch_x86_64_xgetbv
-- 
2.43.0


From 21d128d19dc67ea6e9c5023b3d2ff24299532686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:57 +0000
Subject: [PATCH 19/31] fix: user containers whose size is not constexpr were
 rejected as outputs

---
 src/milo/meta.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/milo/meta.h b/src/milo/meta.h
index 9deae10..167aebc 100644
--- a/src/milo/meta.h
+++ b/src/milo/meta.h
@@ -370,8 +370,8 @@ namespace milo::meta
         requires container<t_0>;
         requires !container_reservable<t_0>;
         requires !container_resizable<t_0>;
-        requires t_0().size() >= t_min;
-        requires t_0().size() <= t_max;
+        requires asbool<(t_0().size() >= t_min)>::value;
+        requires asbool<(t_0().size() <= t_max)>::value;
     };
     
     template<container_static t_0>
-- 
2.43.0


From ac7281f2d27dc9c5be7c25d77a1d1f8e380f6cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:08 +0000
Subject: [PATCH 20/31] fix: digest size option larger than the digest was
 accepted and read past the state

---
 src/milo/primitive/detail/hash/sha/sha_1_160.h | 2 ++
 src/milo/primitive/detail/hash/sha/sha_2_256.h | 2 ++
 src/milo/primitive/detail/hash/sha/sha_2_512.h | 2 ++
 src/milo/primitive/detail/mac/hmac/hmac.h      | 2 ++
 src/milo/primitive/detail/mac/poly/poly_1305.h | 2 ++
 5 files changed, 10 insertions(+)

diff --git a/src/milo/primitive/detail/hash/sha/sha_1_160.h b/src/milo/primitive/detail/hash/sha/sha_1_160.h
index 5e110e6..bb3966c 100644
--- a/src/milo/primitive/detail/hash/sha/sha_1_160.h
+++ b/src/milo/primitive/detail/hash/sha/sha_1_160.h
@@ -61,6 +61,8 @@ namespace milo::primitive::detail
                 bits / 8,
                 t_options...
             >;
+        
+        static_assert(digest_size <= bits / 8);
     
     private:
         
diff --git a/src/milo/primitive/detail/hash/sha/sha_2_256.h b/src/milo/primitive/detail/hash/sha/sha_2_256.h
index da23024..2d7f1ca 100644
--- a/src/milo/primitive/detail/hash/sha/sha_2_256.h
+++ b/src/milo/primitive/detail/hash/sha/sha_2_256.h
@@ -61,6 +61,8 @@ namespace milo::primitive::detail
                 bits / 8,
                 t_options...
             >;
+        
+        static_assert(digest_size <= bits / 8);
     
     private:
         
diff --git a/src/milo/primitive/detail/hash/sha/sha_2_512.h b/src/milo/primitive/detail/hash/sha/sha_2_512.h
index 5111b34..4cebb11 100644
--- a/src/milo/primitive/detail/hash/sha/sha_2_512.h
+++ b/src/milo/primitive/detail/hash/sha/sha_2_512.h
@@ -59,6 +59,8 @@ namespace milo::primitive::detail
                 bits / 8,
                 t_options...
             >;
+        
+        static_assert(digest_size <= bits / 8);
     
     private:
         
diff --git a/src/milo/primitive/detail/mac/hmac/hmac.h b/src/milo/primitive/detail/mac/hmac/hmac.h
index e4b78ed..d217aaa 100644
--- a/src/milo/primitive/detail/mac/hmac/hmac.h
+++ b/src/milo/primitive/detail/mac/hmac/hmac.h
@@ -40,6 +40,8 @@ namespace milo::primitive::detail
                 hash_type::digest_size,
                 t_options...
             >;
+        
+        static_assert(digest_size <= hash_type::digest_size);
     
     private:
         
diff --git a/src/milo/primitive/detail/mac/poly/poly_1305.h b/src/milo/primitive/detail/mac/poly/poly_1305.h
index 72214d9..dcc2912 100644
--- a/src/milo/primitive/detail/mac/poly/poly_1305.h
+++ b/src/milo/primitive/detail/mac/poly/poly_1305.h
@@ -54,6 +54,8 @@ namespace milo::primitive::detail
                 16,
                 t_options...
             >;
+        
+        static_assert(digest_size <= 16);
     
     private:
         
-- 
2.43.0


From ae11a55bd695112fc37f525f31e33e8d362c0d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:58 +0000
Subject: [PATCH 21/31] fix: empty ranges without an address were passed to
 memcpy

---
 src/milo/internal/memory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/milo/internal/memory.h b/src/milo/internal/memory.h
index cf1a0c4..aead6a3 100644
--- a/src/milo/internal/memory.h
+++ b/src/milo/internal/memory.h
@@ -604,7 +604,7 @@ namespace milo::internal
                 );
             }
         }
-        else
+        else if (a_size > 0)
         {
             std::memcpy(
                 reinterpret_cast<uint8_t*>(a_dst_ptr),
-- 
2.43.0


From a4dd13800bfc22e4ebca897e1701d061c4a0ba5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:49 +0000
Subject: [PATCH 22/31] fix: algorithms crashed when used by static
 initialization of another unit first

---
 src/milo/internal/impl.h | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/milo/internal/impl.h b/src/milo/internal/impl.h
index f9d3b7b..2f1b8a6 100644
--- a/src/milo/internal/impl.h
+++ b/src/milo/internal/impl.h
@@ -155,12 +155,23 @@ namespace milo::internal
     }
     struct impl_runtime_reader
     {
-        inline
         static
-        const auto impl = impl_choose_hook<
-            t_chooser,
-            t_impls...
-        >();
+        auto
+        impl(
+        ) noexcept(true) -> const auto&
+        {
+            /*
+             * Initialized on first use, which may happen before static
+             * initialization of the current unit.
+             */
+            static
+            const auto impl = impl_choose_hook<
+                t_chooser,
+                t_impls...
+            >();
+            
+            return impl;
+        }
     };
     
     template<
@@ -260,7 +271,7 @@ namespace milo::internal
                     return invoker::template hook<
                         t_id
                     >(
-                        runtime_selected::impl,
+                        runtime_selected::impl(),
                         forward<
                             t_args
                         >(
-- 
2.43.0


From 908647b0bfda4f0c990f79141196604a148700af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:45 +0000
Subject: [PATCH 23/31] fix: unrecognized single dash tokens hid later options
 and parameters

---
 app/include/milo/app/app.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/include/milo/app/app.h b/app/include/milo/app/app.h
index ef73e9e..f6b2f56 100644
--- a/app/include/milo/app/app.h
+++ b/app/include/milo/app/app.h
@@ -178,7 +178,7 @@ namespace milo::app
                             return true;
                         }
                     }
-                    else
+                    else if (!it->starts_with('-'))
                     {
                         return false;
                     }
@@ -221,7 +221,7 @@ namespace milo::app
                             break;
                         }
                     }
-                    else
+                    else if (!it->starts_with('-'))
                     {
                         throw std::logic_error(
                             std::string(
-- 
2.43.0


From a7383bedd47534d0a6f60b488c6639de10a64641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:45 +0000
Subject: [PATCH 24/31] fix: benchmark reported a wrapped cpu clock

---
 app/include/milo/app/command/benchmark.h | 13 ++++++++++++-
 app/include/milo/app/dep.h               |  1 +
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/app/include/milo/app/command/benchmark.h b/app/include/milo/app/command/benchmark.h
index a9de594..04a6c26 100644
--- a/app/include/milo/app/command/benchmark.h
+++ b/app/include/milo/app/command/benchmark.h
@@ -1237,7 +1237,7 @@ namespace milo::app::command::benchmark
             .cpu_clock = app::args.parameter<uint64_t>(
                 "cpu-clock",
                 0
-            ) * 1000000,
+            ),
             .repeats_warm = app::args.parameter<uint64_t>(
                 "repeats-warm",
                 128
@@ -1248,6 +1248,17 @@ namespace milo::app::command::benchmark
             )
         };
         
+        /*
+         * Clock given in mhz, not expressible in hz is not used.
+         */
+        
+        if (options.cpu_clock > std::numeric_limits<uint64_t>::max() / 1000000)
+        {
+            options.cpu_clock = 0;
+        }
+        
+        options.cpu_clock *= 1000000;
+        
         if (options.repeats_time == 0)
         {
             options.repeats_time = 1;
diff --git a/app/include/milo/app/dep.h b/app/include/milo/app/dep.h
index 86c4ff2..fb5d5a9 100644
--- a/app/include/milo/app/dep.h
+++ b/app/include/milo/app/dep.h
@@ -10,6 +10,7 @@
 #include <functional>
 #include <iomanip>
 #include <iostream>
+#include <limits>
 #include <map>
 #include <numeric>
 #include <sstream>
-- 
2.43.0


From 6f0f5040bbdfd5b6df23db2cbdbc0b75ac52ebe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:45 +0000
Subject: [PATCH 25/31] fix: benchmark reported small metrics as zero

---
 app/include/milo/app/type.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/app/include/milo/app/type.h b/app/include/milo/app/type.h
index 0134879..b8b3a69 100644
--- a/app/include/milo/app/type.h
+++ b/app/include/milo/app/type.h
@@ -340,7 +340,16 @@ namespace milo::app::type
             
             if (is<double>())
             {
-                return std::to_string(as<double>());
+                char chars[32];
+                
+                return std::string(
+                    chars,
+                    std::to_chars(
+                        std::begin(chars),
+                        std::end(chars),
+                        as<double>()
+                    ).ptr
+                );
             }
             
             if (is<bool>())
-- 
2.43.0


From 5f0eab20b16984226a12a88771ac31660a1e1daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:45 +0000
Subject: [PATCH 26/31] fix: benchmark reported infinite metrics of work
 shorter than the clock resolution

---
 app/include/milo/app/command/benchmark.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/app/include/milo/app/command/benchmark.h b/app/include/milo/app/command/benchmark.h
index 04a6c26..6a33a3a 100644
--- a/app/include/milo/app/command/benchmark.h
+++ b/app/include/milo/app/command/benchmark.h
@@ -73,7 +73,14 @@ namespace milo::app::command::benchmark
         
         guard_vol = guard;
         
-        return std::chrono::duration_cast<std::chrono::nanoseconds>(end - beg).count();
+        /*
+         * Work shorter than the clock resolution measures as no time at all.
+         */
+        
+        return std::max<uint64_t>(
+            std::chrono::duration_cast<std::chrono::nanoseconds>(end - beg).count(),
+            1
+        );
     }
     
     template<
-- 
2.43.0


From 84a8a031d78931bf301fbdd3d6c13de436e960f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:06 +0000
Subject: [PATCH 27/31] fix: application crashed when started with an empty
 argument vector

---
 app/include/milo/app/app.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/include/milo/app/app.h b/app/include/milo/app/app.h
index f6b2f56..3a2c1f9 100644
--- a/app/include/milo/app/app.h
+++ b/app/include/milo/app/app.h
@@ -51,7 +51,7 @@ namespace milo::app
                 char** a_argv
             ) noexcept(false):
                 m_args(
-                    a_argv + 1,
+                    a_argv + (a_argc > 0 ? 1 : 0),
                     a_argv + a_argc
                 ),
                 m_args_beg(
-- 
2.43.0


From 760ecb5c340ed560ec135efde52ee59d3d269510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:38 +0000
Subject: [PATCH 28/31] fix: codegen: emit empty and special texts as valid
 literals

---
 tool/codegen/src/cpp/lang.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tool/codegen/src/cpp/lang.py b/tool/codegen/src/cpp/lang.py
index eb73286..ca99ff4 100644
--- a/tool/codegen/src/cpp/lang.py
+++ b/tool/codegen/src/cpp/lang.py
@@ -169,12 +169,17 @@ def gen_str(
         end: str = ''
 ) -> tuple:
     chunks = [
-        f'"{a_str[i: i + wrap]}"'
+        a_str[i: i + wrap]
         for i in range(0, len(a_str), wrap)
     ]
 
+    chunks = [
+        '"' + chunk.replace('\\', '\\\\').replace('"', '\\"') + '"'
+        for chunk in chunks
+    ]
+
     if len(chunks) == 0:
-        chunks.append(end)
+        chunks.append('""' + end)
     else:
         chunks[len(chunks) - 1] += end
 
-- 
2.43.0


From 33c14674103c247a4d3260b647f256b6a195be39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:38 +0000
Subject: [PATCH 29/31] fix: codegen: reject vector identifiers that read as
 success

---
 tool/codegen/main.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tool/codegen/main.py b/tool/codegen/main.py
index 1bac860..3205db9 100644
--- a/tool/codegen/main.py
+++ b/tool/codegen/main.py
@@ -72,6 +72,11 @@ def main(
     payload: dict
     payload = config['payload']
 
+    # Generated tests report a failure by the identifier of the vector, and success by zero.
+    for vectors in payload['vectors']:
+        for vector in vectors['data']:
+            assert vector['id'] > 0
+
     code: str
     code = callbacks[scheme](
         payload
-- 
2.43.0


From 5795443b9a15371057e1469e4d8d13c33521ab39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:54 +0000
Subject: [PATCH 30/31] fix: base-64 sizes were wrong for inputs above 1 GiB
 where size_t has 32 bits

---
 src/milo/primitive/detail/codec/base_64.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/milo/primitive/detail/codec/base_64.h b/src/milo/primitive/detail/codec/base_64.h
index 7ee8007..20be20b 100644
--- a/src/milo/primitive/detail/codec/base_64.h
+++ b/src/milo/primitive/detail/codec/base_64.h
@@ -144,7 +144,7 @@ namespace milo::primitive::detail
             size_t a_from_size
         ) noexcept(true) -> size_t
         {
-            return (a_from_size * 4 / 3 + 3) & ~0b11;
+            return (a_from_size / 3 + (a_from_size % 3 != 0)) * 4;
         }
         
         template<
@@ -259,7 +259,7 @@ namespace milo::primitive::detail
             size_t a_from_size
         ) noexcept(true) -> size_t
         {
-            size_t size = a_from_size * 3 / 4;
+            size_t size = a_from_size / 4 * 3 + a_from_size % 4 * 3 / 4;
             
             if (a_from_size > 1 && char(a_from_ptr[a_from_size - 1]) == '=')
             {
-- 
2.43.0


From 66e98b86ee714f42af2b5803a6b09b9bd540f23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:17 +0000
Subject: [PATCH 31/31] fix: Poly1305 read its key in the byte order of the
 processor

---
 src/milo/primitive/detail/mac/poly/poly_1305.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/milo/primitive/detail/mac/poly/poly_1305.h b/src/milo/primitive/detail/mac/poly/poly_1305.h
index dcc2912..a0ef587 100644
--- a/src/milo/primitive/detail/mac/poly/poly_1305.h
+++ b/src/milo/primitive/detail/mac/poly/poly_1305.h
@@ -109,7 +109,7 @@ namespace milo::primitive::detail
             size_t a_key_size
         ) noexcept(true) -> void
         {
-            internal::memory_init(
+            internal::memory_init_le(
                 m_key_r,
                 a_key_ptr,
                 a_key_size
-- 
2.43.0

