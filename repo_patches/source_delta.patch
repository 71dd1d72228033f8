From e083e9525076b304bdc844d06ee2af500f268caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:44 +0000
Subject: [PATCH 01/84] fix: Vector copy constructor left the data pointer
 uninitialised for an empty source

---
 include/efp/sequence.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index e8ab096..f255fbc 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -557,7 +557,8 @@ namespace detail {
         VectorBase() : _allocator(Allocator()), _data(nullptr), _size(0), _capacity(0) {}
 
         VectorBase(const VectorBase& other)
-            : _allocator(other._allocator), _size(other._size), _capacity(other._capacity) {
+            : _allocator(other._allocator), _data(nullptr), _size(other._size),
+              _capacity(other._capacity) {
             if (other._data) {
                 // Member function call in not allowed in member initializer list
                 // _data = _allocator.allocate(_capacity);
-- 
2.43.0


From 61ba85c960965458bd553c57061ad10d16785608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:44 +0000
Subject: [PATCH 02/84] fix: Vector copy assignment moved destroyed elements
 and kept a stale size

---
 include/efp/sequence.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index f255fbc..d100fce 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -574,19 +574,18 @@ namespace detail {
         // todo copy_and_swap
         VectorBase& operator=(const VectorBase& other) noexcept {
             if (this != &other) {
-                for (size_t i = 0; i < _size; ++i) {
-                    // _allocator.destroy(_data + i);
-                    AllocatorTraits<Allocator>::destroy(_allocator, _data + i);
-                }
+                clear();
 
                 if (_capacity < other._size + 1) {
-                    resize(other._size);
+                    reserve(other._size + 1);
                 }
 
                 for (size_t i = 0; i < other._size; ++i) {
                     // _allocator.construct(_data + i, other._data[i]);
                     AllocatorTraits<Allocator>::construct(_allocator, _data + i, other._data[i]);
                 }
+
+                _size = other._size;
             }
 
             return *this;
-- 
2.43.0


From 8d9aa521e6a04df054b3383fbc742fe4a23bdf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:44 +0000
Subject: [PATCH 03/84] fix: resize of Vector and ArrVec did not construct or
 destroy elements

---
 include/efp/sequence.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index d100fce..084f69e 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -360,6 +360,14 @@ public:
             throw RuntimeError("ArrVec::resize: length must be less than or equal to ct_capacity");
         }
 
+        for (size_t i = _size; i < length; ++i) {
+            new (_data + i) Element {};
+        }
+
+        for (size_t i = length; i < _size; ++i) {
+            (_data + i)->~Element();
+        }
+
         _size = length;
     }
 
@@ -710,6 +718,14 @@ namespace detail {
                 reserve(new_size + 1);
             }
 
+            for (size_t i = _size; i < new_size; ++i) {
+                AllocatorTraits<Allocator>::construct(_allocator, _data + i);
+            }
+
+            for (size_t i = new_size; i < _size; ++i) {
+                AllocatorTraits<Allocator>::destroy(_allocator, _data + i);
+            }
+
             _size = new_size;
         }
 
-- 
2.43.0


From e38dd5a8bb548d53d92865d2df68de5608bcc786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:44 +0000
Subject: [PATCH 04/84] fix: Vector insert and erase assigned to dead elements
 and leaked live ones

---
 include/efp/sequence.hpp | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index 084f69e..e287c08 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -834,16 +834,29 @@ namespace detail {
                 throw RuntimeError("VectorBase::insert: index must be less than or equal to size");
             }
 
+            // The value could be an element of this
+            Element copied(value);
+
             if (_size + 1 >= _capacity) {
                 reserve(_capacity == 0 ? 2 : 2 * _capacity);
             }
 
-            for (size_t i = _size; i > index; --i) {
-                _data[i] = efp::move(_data[i - 1]);
+            if (index == _size) {
+                AllocatorTraits<Allocator>::construct(_allocator, _data + index, efp::move(copied));
+            } else {
+                AllocatorTraits<Allocator>::construct(
+                    _allocator,
+                    _data + _size,
+                    efp::move(_data[_size - 1])
+                );
+
+                for (size_t i = _size - 1; i > index; --i) {
+                    _data[i] = efp::move(_data[i - 1]);
+                }
+
+                _data[index] = efp::move(copied);
             }
 
-            // _allocator.construct(_data + index, value);
-            AllocatorTraits<Allocator>::construct(_allocator, _data + index, value);
             ++_size;
         }
 
@@ -852,13 +865,13 @@ namespace detail {
                 throw RuntimeError("VectorBase::erase: index must be less than or equal to size");
             }
 
-            // _allocator.destroy(_data + index);
-            AllocatorTraits<Allocator>::destroy(_allocator, _data + index);
-
             for (size_t i = index; i < _size - 1; ++i) {
                 _data[i] = efp::move(_data[i + 1]);
             }
 
+            // _allocator.destroy(_data + _size - 1);
+            AllocatorTraits<Allocator>::destroy(_allocator, _data + _size - 1);
+
             --_size;
         }
 
-- 
2.43.0


From e224600da2b87157a9793369469ece2c9afb418f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:44 +0000
Subject: [PATCH 05/84] fix: push_back, emplace_back and insert of a
 container's own element read freed memory

---
 include/efp/sequence.hpp | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index e287c08..681f68a 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -401,12 +401,14 @@ public:
             );
         }
 
+        Element copied(value);  // The value could be an element of this
+
         for (size_t i = _size; i > index; --i) {
             new (_data + i) Element(efp::move(_data[i - 1]));
             (_data + i - 1)->~Element();
         }
 
-        new (_data + index) Element(value);
+        new (_data + index) Element(efp::move(copied));
 
         ++_size;
     }
@@ -787,36 +789,50 @@ namespace detail {
 
         void push_back(const Element& value) {
             if (_size + 1 >= _capacity) {
+                Element copied(value);  // The value could be an element of this
                 reserve(_size == 0 ? 2 : 2 * _size + 1);
+                AllocatorTraits<Allocator>::construct(_allocator, _data + _size, efp::move(copied));
+            } else {
+                // _allocator.construct(_data + _size, value);
+                AllocatorTraits<Allocator>::construct(_allocator, _data + _size, value);
             }
 
-            // _allocator.construct(_data + _size, value);
-            AllocatorTraits<Allocator>::construct(_allocator, _data + _size, value);
             ++_size;
         }
 
         void push_back(Element&& value) {
             if (_size + 1 >= _capacity) {
+                Element moved(efp::move(value));  // The value could be an element of this
                 reserve(_size == 0 ? 2 : 2 * _size + 1);
+                AllocatorTraits<Allocator>::construct(_allocator, _data + _size, efp::move(moved));
+            } else {
+                // _allocator.construct(_data + _size, efp::move(value));
+                AllocatorTraits<Allocator>::construct(_allocator, _data + _size, efp::move(value));
             }
 
-            // _allocator.construct(_data + _size, efp::move(value));
-            AllocatorTraits<Allocator>::construct(_allocator, _data + _size, efp::move(value));
             ++_size;
         }
 
         template<typename... Args>
         void emplace_back(Args&&... args) {
             if (_size + 1 >= _capacity) {
+                // The arguments could refer to an element of this
+                Element emplaced(efp::forward<Args>(args)...);
                 reserve(_size == 0 ? 2 : 2 * _size + 1);
+                AllocatorTraits<Allocator>::construct(
+                    _allocator,
+                    _data + _size,
+                    efp::move(emplaced)
+                );
+            } else {
+                // _allocator.construct(_data + _size, efp::forward<Args>(args)...);
+                AllocatorTraits<Allocator>::construct(
+                    _allocator,
+                    _data + _size,
+                    efp::forward<Args>(args)...
+                );
             }
 
-            // _allocator.construct(_data + _size, efp::forward<Args>(args)...);
-            AllocatorTraits<Allocator>::construct(
-                _allocator,
-                _data + _size,
-                efp::forward<Args>(args)...
-            );
             ++_size;
         }
 
-- 
2.43.0


From 0b0947382532cc9c8a2959f02723456b2a16fd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:44 +0000
Subject: [PATCH 06/84] fix: moving an ArrVec never destroyed the elements of
 the source

---
 include/efp/sequence.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index 681f68a..8c7e329 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -273,10 +273,11 @@ public:
     }
 
     ArrVec(ArrVec&& other) noexcept : _size {other._size} {
-        other._size = 0;
         for (size_t i = 0; i < _size; ++i) {
             new (_data + i) Element {efp::move(other._data[i])};
         }
+
+        other.clear();
     }
 
     ArrVec& operator=(ArrVec&& other) noexcept {
@@ -293,7 +294,7 @@ public:
             }
 
             // Reset the source object
-            other._size = 0;
+            other.clear();
         }
         return *this;
     }
-- 
2.43.0


From e13d25594384df0deacd5a9511d444c74dcbe3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:44 +0000
Subject: [PATCH 07/84] fix: ArrVec converting constructor read past the size
 of the source

---
 include/efp/sequence.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index 8c7e329..16295bc 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -307,8 +307,8 @@ public:
 
     // Constructor from array
     template<size_t ct_size_, typename = EnableIf<ct_capacity >= ct_size_, void>>
-    ArrVec(const ArrVec<Element, ct_size_>& as) : _size(ct_size_) {
-        for (size_t i = 0; i < ct_size_; ++i) {
+    ArrVec(const ArrVec<Element, ct_size_>& as) : _size(as.size()) {
+        for (size_t i = 0; i < _size; ++i) {
             new (_data + i) Element {as[i]};
         }
     }
-- 
2.43.0


From eba9d6bca62c047fb8f7d6c5fb11259243642556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:44 +0000
Subject: [PATCH 08/84] fix: converting constructors of views reported a wrong
 capacity

---
 include/efp/sequence.hpp | 4 ++--
 include/efp/string.hpp   | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index 16295bc..c208b18 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -1343,12 +1343,12 @@ namespace detail {
         // Constructor from ArrayView
         template<size_t ct_size_>
         VectorViewBase(const ArrayView<Element, ct_size_>& as)
-            : _data(as.data()), _size(length(as)) {}
+            : _data(as.data()), _size(length(as)), _capacity(length(as)) {}
 
         // Constructor from ArrVecView
         template<size_t ct_cap_>
         VectorViewBase(const ArrVecView<Element, ct_cap_>& as)
-            : _data(as.data()), _size(length(as)) {}
+            : _data(as.data()), _size(length(as)), _capacity(length(as)) {}
 
         const Element& operator[](size_t index) {
             return _data[index];
diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index b566f49..db75ddf 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -291,12 +291,14 @@ public:
 
     VectorView(const Char* c_str) {
         Base::_size = Traits::length(c_str);
+        Base::_capacity = Base::_size;
         Base::_data = c_str;
     }
 
     // todo basic_string_view(const efp::BasicString<Char>& s) noexcept
     VectorView(const Vector<Char>& s) noexcept {
         Base::_size = s.size();
+        Base::_capacity = s.size();
         Base::_data = s.data();
     }
 
-- 
2.43.0


From 2ef49e96d1b8ca1e7e77c91f4d39c4bef21dc1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:44 +0000
Subject: [PATCH 09/84] fix: data of a mutable std::basic_string did not
 compile before C++17

---
 include/efp/sequence.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index c208b18..d8b3eaf 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -1605,7 +1605,7 @@ constexpr auto data(const std::basic_string<A>& as) -> const A* {
 
 template<typename A>
 constexpr auto data(std::basic_string<A>& as) -> A* {
-    return as.data();
+    return &as[0];
 }
 
 };  // namespace efp
-- 
2.43.0


From 6037950697f1a6a450fc3f8296cd231385ccf1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:54 +0000
Subject: [PATCH 10/84] fix: String(size, char) mismatched its allocation and
 had no room for the terminator

---
 include/efp/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index db75ddf..99b9548 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -44,8 +44,8 @@ public:
     }
 
     Vector(size_t size, Char c) {
-        Base::_capacity = size;
-        Base::_data = static_cast<Char*>(::operator new[](Base::_capacity * sizeof(Char)));
+        Base::_capacity = size + 1;
+        Base::_data = AllocatorTraits<Allocator>::allocate(Base::_allocator, Base::_capacity);
         Base::_size = size;
         for (size_t i = 0; i < size; ++i) {
             Base::_data[i] = c;
-- 
2.43.0


From 7795195ee40045ee4c80faaf07f7289676963dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:54 +0000
Subject: [PATCH 11/84] fix: String insert left no room for the terminator

---
 include/efp/string.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index 99b9548..a57a393 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -160,7 +160,8 @@ public:
         }
 
         const size_t len = Traits::length(c_str);
-        Base::reserve(Base::_size + len);
+        // Always reserve one extra space for the null character
+        Base::reserve(Base::_size + len + 1);
 
         for (size_t i = Base::_size; i > pos; --i) {
             Base::_data[i + len - 1] = Base::_data[i - 1];
-- 
2.43.0


From 4f27735d34a414ed212e7cae8908d76460618cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:54 +0000
Subject: [PATCH 12/84] fix: String c_str wrote through a null pointer when
 nothing was allocated

---
 include/efp/string.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index a57a393..dc91296 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -247,6 +247,11 @@ public:
     }
 
     const Char* c_str() const {
+        if (Base::_data == nullptr) {
+            static const Char empty = Char();
+            return &empty;
+        }
+
         Base::_data[Base::_size] = '\0';
         return Base::_data;
     }
-- 
2.43.0


From 82790f6650d76ba8c7d384238df7ea0eb5f8aa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:54 +0000
Subject: [PATCH 13/84] fix: String compare ignored the length of the other
 string and read past its end

---
 include/efp/string.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index dc91296..103908a 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -231,7 +231,7 @@ public:
     // todo find, rfind, find_first_of, find_last_of, find_first_not_of, find_last_not_of
 
     int compare(const Vector& other) const {
-        return Traits::compare(Base::_data, other.data(), Base::_size);
+        return compare(0, Base::_size, other);
     }
 
     int compare(size_t pos, size_t len, const Vector& other) const {
@@ -243,7 +243,11 @@ public:
             len = Base::_size - pos;
         }
 
-        return Traits::compare(Base::_data + pos, other.data(), len);
+        const size_t other_len = other.size();
+        const int res =
+            Traits::compare(Base::_data + pos, other.data(), len < other_len ? len : other_len);
+
+        return res != 0 ? res : (len < other_len ? -1 : (len > other_len ? 1 : 0));
     }
 
     const Char* c_str() const {
-- 
2.43.0


From 84f01432755a195803c9948610c1f9ed7f7c0904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:54 +0000
Subject: [PATCH 14/84] fix: an empty String or StringView compared unequal to
 an empty C string

---
 include/efp/string.hpp | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index 103908a..4fee100 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -86,12 +86,8 @@ public:
 
     // Specialized equality comparison operator with const char *
     bool operator==(const Char* c_str) const {
-        if (Base::_data == nullptr && c_str == nullptr) {
-            return true;
-        }
-
-        if (Base::_data == nullptr || c_str == nullptr) {
-            return false;
+        if (c_str == nullptr) {
+            return Base::_data == nullptr;
         }
 
         size_t c_str_len = Traits::length(c_str);
@@ -318,12 +314,8 @@ public:
 
     // Specialized equality comparison operator with const char *
     bool operator==(const Char* c_str) const {
-        if (Base::_data == nullptr && c_str == nullptr) {
-            return true;
-        }
-
-        if (Base::_data == nullptr || c_str == nullptr) {
-            return false;
+        if (c_str == nullptr) {
+            return Base::_data == nullptr;
         }
 
         size_t c_str_len = Traits::length(c_str);
-- 
2.43.0


From 91e82798d37083727a6269b0c79e385deb865d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:54 +0000
Subject: [PATCH 15/84] fix: appending a String to itself never terminated

---
 include/efp/string.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index 4fee100..34ae2cd 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -115,7 +115,9 @@ public:
     }
 
     Vector& operator+=(const Vector& other) {
-        for (size_t i = 0; i < other.size(); ++i) {
+        const size_t other_size = other.size();  // The other could be this
+
+        for (size_t i = 0; i < other_size; ++i) {
             Base::push_back(other[i]);
         }
 
-- 
2.43.0


From e2785ac2877fa385eb804507638115c0a9739bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:54 +0000
Subject: [PATCH 16/84] fix: equality of StringView compared addresses instead
 of characters

---
 include/efp/string.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index 34ae2cd..9470faf 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -311,7 +311,8 @@ public:
     }
 
     bool operator==(const VectorView& other) const {
-        return Base::operator==(other);
+        return Base::_size == other._size
+            && Traits::compare(Base::_data, other._data, Base::_size) == 0;
     }
 
     // Specialized equality comparison operator with const char *
-- 
2.43.0


From ffb2af09f8eab9ccbf1b6570cdc2d99e8b050e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:54 +0000
Subject: [PATCH 17/84] fix: the iterator range constructor of String did not
 compile

---
 include/efp/string.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index 9470faf..a266f1e 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -62,21 +62,21 @@ public:
     // Not using iterator
     template<typename InputIt>
     Vector(InputIt first, InputIt last, const Allocator& alloc = Allocator())
-        : Base::allocator_(alloc), Base::size_(0), Base::capacity_(0) {
+        : Base() {
         // First pass: Count the number of elements to determine size
         for (InputIt it = first; it != last; ++it) {
-            ++Base::size_;
+            ++Base::_size;
         }
-        Base::capacity_ = Base::size_ + 1;
+        Base::_capacity = Base::_size + 1;
 
         // Allocate memory for the elements
-        // Base::data_ = Base::allocator_.allocate(Base::capacity_);
-        Base::data_ = AllocatorTraits<Allocator>::allocate(Base::allocator_, Base::capacity_);
+        // Base::_data = Base::_allocator.allocate(Base::_capacity);
+        Base::_data = AllocatorTraits<Allocator>::allocate(Base::_allocator, Base::_capacity);
 
         // Second pass: Copy-construct elements from the range
         size_t i = 0;
         for (InputIt it = first; it != last; ++it, ++i) {
-            Base::allocator_.construct(Base::data_ + i, *it);
+            AllocatorTraits<Allocator>::construct(Base::_allocator, Base::_data + i, *it);
         }
     }
 
-- 
2.43.0


From 10935f55d57248c1257d03c67f346044b6687306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:54 +0000
Subject: [PATCH 18/84] fix: copying or moving a Vcq took the wrong, possibly
 dead, elements

---
 include/efp/cyclic.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/efp/cyclic.hpp b/include/efp/cyclic.hpp
index efb6db3..5793310 100644
--- a/include/efp/cyclic.hpp
+++ b/include/efp/cyclic.hpp
@@ -183,8 +183,8 @@ class Vcq {
         for (size_t i = 0; i < other._size; ++i) {
             const auto j =
                 read_offset + i < ct_capacity ? read_offset + i : read_offset + i - ct_capacity;
-            new (_buffer + j) A(other._buffer[i]);
-            new (_buffer + ct_capacity + j) A(other._buffer[i]);
+            new (_buffer + j) A(other._read[i]);
+            new (_buffer + ct_capacity + j) A(other._read[i]);
         }
 
         _size = other._size;
@@ -206,8 +206,8 @@ class Vcq {
             const auto j = read_offset_other + i < ct_capacity
                 ? read_offset_other + i
                 : read_offset_other + i - ct_capacity;
-            new (_buffer + j) A(other._buffer[i]);
-            new (_buffer + ct_capacity + j) A(other._buffer[i]);
+            new (_buffer + j) A(other._read[i]);
+            new (_buffer + ct_capacity + j) A(other._read[i]);
         }
 
         _size = other._size;
@@ -222,8 +222,8 @@ class Vcq {
             const auto j = read_offset_other + i < ct_capacity
                 ? read_offset_other + i
                 : read_offset_other + i - ct_capacity;
-            new (_buffer + j) A(efp::move(other._buffer[i]));
-            new (_buffer + ct_capacity + j) A(efp::move(other._buffer[i]));
+            new (_buffer + j) A(efp::move(other._buffer[j]));
+            new (_buffer + ct_capacity + j) A(efp::move(other._buffer[ct_capacity + j]));
         }
 
         _size = other._size;
@@ -245,8 +245,8 @@ class Vcq {
             const auto j = read_offset_other + i < ct_capacity
                 ? read_offset_other + i
                 : read_offset_other + i - ct_capacity;
-            new (_buffer + j) A(efp::move(other._buffer[i]));
-            new (_buffer + ct_capacity + j) A(efp::move(other._buffer[i]));
+            new (_buffer + j) A(efp::move(other._buffer[j]));
+            new (_buffer + ct_capacity + j) A(efp::move(other._buffer[ct_capacity + j]));
         }
 
         _size = other._size;
-- 
2.43.0


From b3f61430e6f9f8656520712c2e435c710ad8e427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:54 +0000
Subject: [PATCH 19/84] fix: self-assignment of Vcb and Vcq copied destroyed
 elements

---
 include/efp/cyclic.hpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/efp/cyclic.hpp b/include/efp/cyclic.hpp
index 5793310..bea2342 100644
--- a/include/efp/cyclic.hpp
+++ b/include/efp/cyclic.hpp
@@ -31,6 +31,10 @@ class Vcb {
     }
 
     Vcb& operator=(const Vcb& other) {
+        if (this == &other) {
+            return *this;
+        }
+
         for (size_t i = 0; i < ct_size * 2; ++i) {
             (_buffer + i)->~A();
             new (_buffer + i) A(other._buffer[i]);
@@ -47,7 +51,11 @@ class Vcb {
         _data = _buffer + (other._data - other._buffer);
     }
 
-    Vcb operator=(Vcb&& other) noexcept {
+    Vcb& operator=(Vcb&& other) noexcept {
+        if (this == &other) {
+            return *this;
+        }
+
         for (size_t i = 0; i < ct_size * 2; ++i) {
             (_buffer + i)->~A();
             new (_buffer + i) A(efp::move(other._buffer[i]));
@@ -193,6 +201,10 @@ class Vcq {
     }
 
     Vcq& operator=(const Vcq& other) {
+        if (this == &other) {
+            return *this;
+        }
+
         const auto read_offset = _read - _buffer;
         for (size_t i = 0; i < _size; ++i) {
             const auto j =
@@ -232,6 +244,10 @@ class Vcq {
     }
 
     Vcq& operator=(Vcq&& other) noexcept {
+        if (this == &other) {
+            return *this;
+        }
+
         const auto read_offset = _read - _buffer;
         for (size_t i = 0; i < _size; ++i) {
             const auto j =
-- 
2.43.0


From 44d93d65170b5455c40617889df698833d5693b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:54 +0000
Subject: [PATCH 20/84] fix: end of an empty Vcq was a whole buffer past its
 begin

---
 include/efp/cyclic.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/cyclic.hpp b/include/efp/cyclic.hpp
index bea2342..f461766 100644
--- a/include/efp/cyclic.hpp
+++ b/include/efp/cyclic.hpp
@@ -349,11 +349,11 @@ class Vcq {
     }
 
     const A* end() const {
-        return _write > _read ? _write : _write + ct_capacity;
+        return _read + _size;
     }
 
     A* end() {
-        return _write > _read ? _write : _write + ct_capacity;
+        return _read + _size;
     }
 
   private:
-- 
2.43.0


From 64a905ddfdd0c6858d7ca0220c98fa742d329e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:54 +0000
Subject: [PATCH 21/84] fix: pushing an element of a full Vcq to itself copied
 a destroyed element

---
 include/efp/cyclic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/cyclic.hpp b/include/efp/cyclic.hpp
index f461766..2609932 100644
--- a/include/efp/cyclic.hpp
+++ b/include/efp/cyclic.hpp
@@ -289,7 +289,7 @@ class Vcq {
         return _read[index];
     }
 
-    void push_back(const A& value) {
+    void push_back(A value) {
         if (_size == ct_capacity) {  // Has to destroy the oldest element if the buffer is full
             _write->~A();
             (_write + ct_capacity)->~A();
-- 
2.43.0


From 80fb14a6875df7345fa4ee962defd92b107893c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:43 +0000
Subject: [PATCH 22/84] fix: equality of Maybe did not compile

---
 include/efp/maybe.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/efp/maybe.hpp b/include/efp/maybe.hpp
index d6d04a5..e10d401 100644
--- a/include/efp/maybe.hpp
+++ b/include/efp/maybe.hpp
@@ -7,7 +7,15 @@
 
 namespace efp {
 
-struct Nothing {};
+struct Nothing {
+    constexpr bool operator==(const Nothing&) const noexcept {
+        return true;
+    }
+
+    constexpr bool operator!=(const Nothing&) const noexcept {
+        return false;
+    }
+};
 
 constexpr Nothing nothing;
 
-- 
2.43.0


From dbcb2e810ca9c0d5d7f005ca4e7a3eb648183e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:43 +0000
Subject: [PATCH 23/84] fix: a throwing copy assignment of Enum left a
 destroyed alternative behind

---
 include/efp/enum.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/include/efp/enum.hpp b/include/efp/enum.hpp
index e81e4f3..186d88c 100644
--- a/include/efp/enum.hpp
+++ b/include/efp/enum.hpp
@@ -250,13 +250,9 @@ namespace detail {
 
         EnumBase& operator=(const EnumBase& other) {
             if (this != &other) {
-                EnumSwitch<alt_num, DestroyCase, EnumBase*>::call(_index, this);
-                _index = other._index;
-                EnumSwitch<alt_num, CopyCase, EnumBase*, const EnumBase&>::call(
-                    _index,
-                    this,
-                    other
-                );
+                // Copy first, so that this stays intact if the copy throws
+                EnumBase copied(other);
+                *this = efp::move(copied);
             }
             return *this;
         }
-- 
2.43.0


From c657837d4dde8cf1e1ef7a7730c413acf25261d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:43 +0000
Subject: [PATCH 24/84] fix: moving a File lost its mode and leaked the file it
 replaced

---
 include/efp/io.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/efp/io.hpp b/include/efp/io.hpp
index 82daea1..97d05e0 100644
--- a/include/efp/io.hpp
+++ b/include/efp/io.hpp
@@ -38,12 +38,17 @@ public:
     File& operator=(const File&) = delete;
 
     File(File&& other) noexcept : _file(other._file) {
+        std::memcpy(_mode, other._mode, sizeof(_mode));
         other._file = nullptr;
     }
 
     File& operator=(File&& other) noexcept {
         if (this != &other) {
+            if (_file)
+                std::fclose(_file);
+
             _file = other._file;
+            std::memcpy(_mode, other._mode, sizeof(_mode));
             other._file = nullptr;
         }
         return *this;
-- 
2.43.0


From b3908934c8793963a087213dac59aeb96ca432c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:43 +0000
Subject: [PATCH 25/84] fix: flush, seek and tell of a closed File passed a
 null stream

---
 include/efp/io.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/efp/io.hpp b/include/efp/io.hpp
index 97d05e0..5f1d95f 100644
--- a/include/efp/io.hpp
+++ b/include/efp/io.hpp
@@ -138,15 +138,15 @@ public:
     }
 
     int flush() {
-        return std::fflush(_file);
+        return _file ? std::fflush(_file) : EOF;
     }
 
     bool seek(long offset) {
-        return std::fseek(_file, offset, SEEK_SET) == 0;
+        return _file && std::fseek(_file, offset, SEEK_SET) == 0;
     }
 
     int tell() {
-        return std::ftell(_file);
+        return _file ? std::ftell(_file) : -1;
     }
 
     bool close() {
-- 
2.43.0


From 68e8f32ccefb7a97c637b3c9b1d23670670aab89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:43 +0000
Subject: [PATCH 26/84] fix: a File was closed twice after a failing close

---
 include/efp/io.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/efp/io.hpp b/include/efp/io.hpp
index 5f1d95f..f6d7627 100644
--- a/include/efp/io.hpp
+++ b/include/efp/io.hpp
@@ -150,12 +150,14 @@ public:
     }
 
     bool close() {
-        if (_file && std::fclose(_file) != EOF) {
-            _file = nullptr;
-            return true;
-        }
+        if (_file == nullptr)
+            return false;
+
+        // The stream is gone whether or not closing it succeeds
+        FILE* file = _file;
+        _file = nullptr;
 
-        return false;
+        return std::fclose(file) != EOF;
     }
 
 private:
-- 
2.43.0


From 0789cc3acdd742dec2099f448935bdf248fdd70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:43 +0000
Subject: [PATCH 27/84] fix: writing a String in text mode stopped at an
 embedded null character

---
 include/efp/io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/io.hpp b/include/efp/io.hpp
index f6d7627..8073683 100644
--- a/include/efp/io.hpp
+++ b/include/efp/io.hpp
@@ -133,7 +133,7 @@ public:
             size_t written = std::fwrite(data.data(), sizeof(char), data.size(), _file);
             return written == data.size();
         } else {
-            return std::fputs(data.c_str(), _file) != EOF;
+            return write(data.data(), data.size());
         }
     }
 
-- 
2.43.0


From 87a4a8e117c9973f781d0f2e3a372e4e3bbfbd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:43 +0000
Subject: [PATCH 28/84] fix: NonBlockingQ is_empty raced with enqueue and
 dequeue

---
 include/efp/concurrency.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/efp/concurrency.hpp b/include/efp/concurrency.hpp
index 5f137bb..2205c71 100644
--- a/include/efp/concurrency.hpp
+++ b/include/efp/concurrency.hpp
@@ -128,6 +128,7 @@ public:
     }
 
     bool is_empty() {
+        std::lock_guard<std::mutex> lock(_m);
         return _q.empty();
     }
 
@@ -169,6 +170,7 @@ public:
     }
 
     bool is_empty() {
+        std::lock_guard<std::mutex> lock(_m);
         return _q.empty();
     }
 
-- 
2.43.0


From 783d5d3afbe75d1e7b85124cd08467bfb3559ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:43 +0000
Subject: [PATCH 29/84] fix: DoubleBuffer stayed locked after a copy of an
 element threw

---
 include/efp/concurrency.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/efp/concurrency.hpp b/include/efp/concurrency.hpp
index 2205c71..3847d82 100644
--- a/include/efp/concurrency.hpp
+++ b/include/efp/concurrency.hpp
@@ -196,6 +196,9 @@ private:
 // A thread-safe, allocation-free double buffer implementation.
 template<typename A, size_t capacity>
 class DoubleBuffer {
+private:
+    class Spinlock;
+
 public:
     explicit DoubleBuffer()
         : _read_buffer(new Vcq<A, capacity> {}), _write_buffer(new Vcq<A, capacity> {}) {}
@@ -214,15 +217,13 @@ public:
     }
 
     void enqueue(const A& a) {
-        _spinlock.lock();
+        std::lock_guard<Spinlock> lock(_spinlock);
         _write_buffer->push_back(a);
-        _spinlock.unlock();
     }
 
     void swap_buffer() {
-        _spinlock.lock();
+        std::lock_guard<Spinlock> lock(_spinlock);
         swap(_write_buffer, _read_buffer);
-        _spinlock.unlock();
     }
 
     A dequeue() {
-- 
2.43.0


From daad2bf3e3a5b0e8325d75e9b88ad2c7f1d39035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:43 +0000
Subject: [PATCH 30/84] fix: append depended on the unspecified evaluation
 order of arguments

---
 include/efp/prelude.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/efp/prelude.hpp b/include/efp/prelude.hpp
index 8a9fc99..cbdb2cc 100644
--- a/include/efp/prelude.hpp
+++ b/include/efp/prelude.hpp
@@ -241,7 +241,9 @@ auto append(const As& as, const Ass&... ass) -> AppendReturn<As, Ass...> {
     }
 
     size_t idx = 0;
-    execute_pack(detail::append_impl(idx, res, as), detail::append_impl(idx, res, ass)...);
+    // Only a braced list guarantees that the arguments are evaluated in order
+    const Unit units[] {detail::append_impl(idx, res, as), detail::append_impl(idx, res, ass)...};
+    (void)units;
 
     return res;
 }
-- 
2.43.0


From 87cceed1e5bb86ce9338f5f7859eed673303a828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:43 +0000
Subject: [PATCH 31/84] fix: take_while and drop_while did not compile

---
 include/efp/prelude.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/prelude.hpp b/include/efp/prelude.hpp
index cbdb2cc..f6415c9 100644
--- a/include/efp/prelude.hpp
+++ b/include/efp/prelude.hpp
@@ -889,7 +889,7 @@ auto take_while(const F& f, const As& as) -> TakeWhileReturn<As> {
         ++i;
     }
 
-    return take(i, as);
+    return TakeWhileReturn<As>(data(as), i);
 }
 
 // drop_while
@@ -909,7 +909,7 @@ auto drop_while(const F& f, const As& as) -> DropWhileReturn<As> {
         ++i;
     }
 
-    return drop(i, as);
+    return DropWhileReturn<As>(data(as) + i, as_len - i);
 }
 
 // elem
-- 
2.43.0


From 202a0d56f9622d1b5a7eb9e1d537f3c85b575b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:43 +0000
Subject: [PATCH 32/84] fix: cartesian_for_each_mut could not mutate the outer
 sequences

---
 include/efp/prelude.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/prelude.hpp b/include/efp/prelude.hpp
index f6415c9..470ed6d 100644
--- a/include/efp/prelude.hpp
+++ b/include/efp/prelude.hpp
@@ -427,7 +427,7 @@ void cartesian_for_each_mut(const F& f, As& as, Ass&... ass) {
     const auto as_len = length(as);
 
     for (size_t i = 0; i < as_len; ++i) {
-        const auto a = nth(i, as);
+        auto& a = nth(i, as);
         const auto inner = [&](Element<Ass>&... xs) { f(a, xs...); };
 
         cartesian_for_each_mut(inner, ass...);
-- 
2.43.0


From 0c472cb4dda6b0d52b6ff54b3b1093b3d4ae7e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:43 +0000
Subject: [PATCH 33/84] fix: slice returned a view past the end of the sequence

---
 include/efp/prelude.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/efp/prelude.hpp b/include/efp/prelude.hpp
index 470ed6d..361d6a3 100644
--- a/include/efp/prelude.hpp
+++ b/include/efp/prelude.hpp
@@ -864,12 +864,20 @@ using SliceReturn = TakeReturn<
 // todo Optimization
 template<typename S, typename E, typename As>
 auto slice(S start, E end, const As& as) -> SliceReturn<S, E, As, true> {
-    return SliceReturn<S, E, As, true>(data(as) + start, end - start);
+    const size_t as_len = length(as);
+    const size_t bound_end = min(static_cast<size_t>(end), as_len);
+    const size_t bound_start = min(static_cast<size_t>(start), bound_end);
+
+    return SliceReturn<S, E, As, true>(data(as) + bound_start, bound_end - bound_start);
 }
 
 template<typename S, typename E, typename As>
 auto slice(S start, E end, As& as) -> SliceReturn<S, E, As, false> {
-    return SliceReturn<S, E, As, false>(data(as) + start, end - start);
+    const size_t as_len = length(as);
+    const size_t bound_end = min(static_cast<size_t>(end), as_len);
+    const size_t bound_start = min(static_cast<size_t>(start), bound_end);
+
+    return SliceReturn<S, E, As, false>(data(as) + bound_start, bound_end - bound_start);
 }
 
 // take_while
-- 
2.43.0


From d64eb574065e17dec221c4ef7573b48da1715f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:43 +0000
Subject: [PATCH 34/84] fix: filter of a view of constant elements did not
 compile

---
 include/efp/prelude.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/prelude.hpp b/include/efp/prelude.hpp
index 361d6a3..bb47251 100644
--- a/include/efp/prelude.hpp
+++ b/include/efp/prelude.hpp
@@ -123,8 +123,8 @@ auto map(const F& f, const Ass&... ass) -> MapReturn<F, Ass...> {
 template<typename As>
 using FilterReturn = Conditional<
     CtCapacity<As>::value != dyn,
-    ArrVec<Element<As>, CtCapacity<As>::value>,
-    Vector<Element<As>>>;
+    ArrVec<ConstRemoved<Element<As>>, CtCapacity<As>::value>,
+    Vector<ConstRemoved<Element<As>>>>;
 
 // filter :: (A -> Bool) -> [A] -> [A]
 template<typename As, typename F = bool (*)(const Element<As>&)>
-- 
2.43.0


From a8afc44ab91aaf4748b742b9df2d97a91d7cded5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:43 +0000
Subject: [PATCH 35/84] fix: compose kept references to functions that could be
 temporary

---
 include/efp/prelude.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/prelude.hpp b/include/efp/prelude.hpp
index bb47251..364236b 100644
--- a/include/efp/prelude.hpp
+++ b/include/efp/prelude.hpp
@@ -26,7 +26,7 @@ struct Composed {};
 
 template<typename F>
 struct Composed<F> {
-    const F& f;
+    const FuncToFuncPtr<F> f;
 
     Composed(const F& f) : f(f) {}
 
@@ -38,7 +38,7 @@ struct Composed<F> {
 
 template<typename F, typename... Fs>
 struct Composed<F, Fs...> {
-    const F& f;
+    const FuncToFuncPtr<F> f;
     const Composed<Fs...> fs;
 
     Composed(const F& f, const Fs&... fs) : f(f), fs(Composed<Fs...>(fs...)) {}
-- 
2.43.0


From f7622639ccc1122d00b39a1eba7f42237db61c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:43 +0000
Subject: [PATCH 36/84] fix: max_elem of negative floating point numbers was
 the smallest positive one

---
 include/efp/numeric.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/numeric.hpp b/include/efp/numeric.hpp
index 26dc0bc..3b08601 100644
--- a/include/efp/numeric.hpp
+++ b/include/efp/numeric.hpp
@@ -113,7 +113,7 @@ namespace efp {
 
 template<typename As>
 constexpr Element<As> max_elem(const As& as) {
-    return foldl(max, NumericLimits<Element<As>>::min(), as);
+    return foldl(max, NumericLimits<Element<As>>::lowest(), as);
 }
 
 template<typename As>
-- 
2.43.0


From 17f96ba1d0662c6be53b2ab1b9fb5c3a4f98b225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:43 +0000
Subject: [PATCH 37/84] fix: linear_regression_with_index overflowed for long
 sequences

---
 include/efp/scientific.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/scientific.hpp b/include/efp/scientific.hpp
index a5a4ad9..7ab8874 100644
--- a/include/efp/scientific.hpp
+++ b/include/efp/scientific.hpp
@@ -152,7 +152,7 @@ Tuple<R, R> linear_regression_with_index(const As& as) {
     };
 
     const auto ss_ia = sum(map_with_index(get_ss_ia, as));
-    const auto ss_ii = n * (n * n - 1) / 12.;
+    const auto ss_ii = n * (static_cast<double>(n) * n - 1) / 12.;
 
     const auto beta_1 = ss_ia / ss_ii;
     const auto beta_2 = as_mean - (beta_1 * mean_is);
-- 
2.43.0


From 93d036274ea69b031f57b6c6440b5ec06d61348e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:43 +0000
Subject: [PATCH 38/84] fix: detrend converted indices to the element type

---
 include/efp/scientific.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/scientific.hpp b/include/efp/scientific.hpp
index 7ab8874..a49244d 100644
--- a/include/efp/scientific.hpp
+++ b/include/efp/scientific.hpp
@@ -166,7 +166,7 @@ NAryReturn<R, As> detrend(const As& as) {
     const auto beta_1 = get<0>(betas);
     const auto beta_2 = get<1>(betas);
 
-    const auto detrend_elem = [&](const Element<As>& i, const Element<As>& x) {
+    const auto detrend_elem = [&](const size_t& i, const Element<As>& x) {
         return (R)x - (beta_1 * (R)i + beta_2);
     };
 
-- 
2.43.0


From 7355747888c7795999ddea2bbc7a5794865e65c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:43 +0000
Subject: [PATCH 39/84] fix: sorting more than 32 elements skipped the merges
 it needed

---
 include/efp/sort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/sort.hpp b/include/efp/sort.hpp
index afb6be4..7efddd0 100644
--- a/include/efp/sort.hpp
+++ b/include/efp/sort.hpp
@@ -156,7 +156,7 @@ void timsort_merge(Vector<A>& arr, size_t start, size_t mid, size_t end, const F
     size_t start2 = mid + 1;
 
     // If the direct merge is already sorted
-    if (!comp(arr[mid], arr[start2]))
+    if (!comp(arr[start2], arr[mid]))
         return;
 
     // Two posize_ters to masize_tain start of both arrays to merge
-- 
2.43.0


From dc654fa1effc1aa2f8a23adf72f48f60a820c4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:43 +0000
Subject: [PATCH 40/84] fix: quicksort recursed once per element of a sorted
 input

---
 include/efp/sort.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/efp/sort.hpp b/include/efp/sort.hpp
index 7efddd0..1943e65 100644
--- a/include/efp/sort.hpp
+++ b/include/efp/sort.hpp
@@ -132,11 +132,18 @@ size_t partition_by(Vector<A>& arr, size_t low, size_t high, const F& comp) {
 template<typename A, typename F = bool (*)(const A&, const A&)>
 
 void quicksort_by(Vector<A>& arr, size_t low, size_t high, const F& comp) {
-    if (low < high) {
+    // Recurse into the smaller side only, to bound the recursion depth
+    while (low < high) {
         size_t pi = partition_by(arr, low, high, comp);
-        if (pi != 0)
-            quicksort_by(arr, low, pi - 1, comp);
-        quicksort_by(arr, pi + 1, high, comp);
+
+        if (pi - low < high - pi) {
+            if (pi != 0)
+                quicksort_by(arr, low, pi - 1, comp);
+            low = pi + 1;
+        } else {
+            quicksort_by(arr, pi + 1, high, comp);
+            high = pi - 1;
+        }
     }
 }
 
-- 
2.43.0


From 48c5f7e2753226748b465cea3fdef74dc56fa15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:35 +0000
Subject: [PATCH 41/84] fix: from_function of an Int length allocated instead
 of returning an Array

---
 include/efp/prelude.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/efp/prelude.hpp b/include/efp/prelude.hpp
index 364236b..773292d 100644
--- a/include/efp/prelude.hpp
+++ b/include/efp/prelude.hpp
@@ -180,6 +180,11 @@ namespace detail {
     struct FromFunctionReturnImpl<Size<n>, F> {
         using Type = Array<InvokeResult<F, size_t>, n>;
     };
+
+    template<int n, typename F>
+    struct FromFunctionReturnImpl<CtConst<int, n>, F> {
+        using Type = Array<InvokeResult<F, size_t>, n>;
+    };
 }  // namespace detail
 
 // FromFunctionReturn
-- 
2.43.0


From e233634199a414d4a74a90897724c44fc54183f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:07 +0000
Subject: [PATCH 42/84] fix: head required a member function the Sequence trait
 does not have

---
 include/efp/prelude.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/prelude.hpp b/include/efp/prelude.hpp
index 773292d..ce6c60c 100644
--- a/include/efp/prelude.hpp
+++ b/include/efp/prelude.hpp
@@ -520,7 +520,7 @@ void cartesian_for_index(const F& f, size_t n, const Ints&... is) {
 
 template<typename As>
 auto head(const As& as) -> const Element<As>& {
-    if (as.empty()) {
+    if (length(as) == 0) {
         throw RuntimeError("Sequence should not be empty");
     }
 
-- 
2.43.0


From 07d35c5daf678a27bb370195fd119444ae4b30f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:31 +0000
Subject: [PATCH 43/84] fix: slice with static bounds in reverse order returned
 a non-empty view

---
 include/efp/prelude.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/efp/prelude.hpp b/include/efp/prelude.hpp
index ce6c60c..049f27b 100644
--- a/include/efp/prelude.hpp
+++ b/include/efp/prelude.hpp
@@ -859,10 +859,7 @@ auto slice_unsafe(S start, E end, As& as) -> SliceUnsafeReturn<S, E, As, false>
 // SliceReturn
 
 template<typename S, typename E, typename As, bool is_const>
-using SliceReturn = TakeReturn<
-    decltype(efp::declval<E>() - efp::declval<S>()),
-    DropReturn<S, As, is_const>,
-    is_const>;
+using SliceReturn = DropReturn<S, TakeReturn<E, As, is_const>, is_const>;
 
 // slice
 
-- 
2.43.0


From 8cb7ae8c69786ab404321db4c6d0571e162851fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:02 +0000
Subject: [PATCH 44/84] fix: autocovariance required operator[] of the sequence
 instead of the nth trait

---
 include/efp/scientific.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/scientific.hpp b/include/efp/scientific.hpp
index a49244d..5077e0f 100644
--- a/include/efp/scientific.hpp
+++ b/include/efp/scientific.hpp
@@ -94,7 +94,7 @@ R autocovariance(const As& as, const int& lag) {
     R summation = 0;
 
     for_index(
-        [&](const int& i) { summation += (nth(i, as) - as_mean) * (as[i + lag] - as_mean); },
+        [&](const int& i) { summation += (nth(i, as) - as_mean) * (nth(i + lag, as) - as_mean); },
         sum_length
     );
 
-- 
2.43.0


From 16a285efd1e08dbca7489fbd6e950e458b2ebd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:02 +0000
Subject: [PATCH 45/84] fix: intercalate over a sequence of static size zero
 computed a negative result size

---
 include/efp/prelude.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/efp/prelude.hpp b/include/efp/prelude.hpp
index 049f27b..2090b69 100644
--- a/include/efp/prelude.hpp
+++ b/include/efp/prelude.hpp
@@ -312,7 +312,9 @@ using IntercalateReturn = Conditional<
     _all({IsStaticSize<As>::value, IsStaticSize<Ass>::value, IsStaticSize<Element<Ass>>::value}),
     Array<
         Element<Element<Ass>>,
-        CtSize<Ass>::value*(CtSize<Element<Ass>>::value + CtSize<As>::value) - CtSize<As>::value>,
+        CtSize<Ass>::value == 0
+            ? 0
+            : CtSize<Ass>::value*(CtSize<Element<Ass>>::value + CtSize<As>::value) - CtSize<As>::value>,
     Conditional<
         _all(
             {IsStaticCapacity<As>::value,
@@ -321,8 +323,10 @@ using IntercalateReturn = Conditional<
         ),
         ArrVec<
             Element<Element<Ass>>,
-            CtCapacity<Ass>::value*(CtCapacity<Element<Ass>>::value + CtCapacity<As>::value)
-                - CtCapacity<As>::value>,
+            CtCapacity<Ass>::value == 0
+                ? 0
+                : CtCapacity<Ass>::value*(CtCapacity<Element<Ass>>::value + CtCapacity<As>::value)
+                    - CtCapacity<As>::value>,
         Vector<Element<Element<Ass>>>>>;
 
 // intercalate :: [A] -> [[A]] -> [A]
-- 
2.43.0


From 81ae9ed0239593cea986703607f6c86410318291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:43 +0000
Subject: [PATCH 46/84] fix: implicit conversion of a String to a StringView
 was ambiguous

---
 include/efp/string.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index a266f1e..6a81516 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -258,9 +258,7 @@ public:
         return Base::_data;
     }
 
-    operator BasicStringView<Char, Traits>() const {
-        return BasicStringView<Char, Traits>(Base::_data, Base::_size);
-    }
+    // Conversion to BasicStringView is its converting constructor
 
 #if defined(__STDC_HOSTED__) && __STDC_HOSTED__ == 1
     operator std::string() const {
-- 
2.43.0


From dca004f9eeae1ac7fe03f23e5cf42492aa45e861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:01 +0000
Subject: [PATCH 47/84] fix: fixed formatting rounded a tiny long double up to
 one unit of the last digit

---
 include/efp/fmt/format.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/efp/fmt/format.h b/include/efp/fmt/format.h
index 4e3c797..c37fee3 100644
--- a/include/efp/fmt/format.h
+++ b/include/efp/fmt/format.h
@@ -3446,8 +3446,11 @@ EFP_FMT_CONSTEXPR20 inline void format_dragon(
     // Generate the given number of digits.
     exp10 -= num_digits - 1;
     if (num_digits <= 0) {
-        denominator *= 10;
-        auto digit = add_compare(numerator, numerator, denominator) > 0 ? '1' : '0';
+        auto digit = '0';
+        if (num_digits == 0) {
+            denominator *= 10;
+            digit = add_compare(numerator, numerator, denominator) > 0 ? '1' : '0';
+        }
         buf.push_back(digit);
         return;
     }
-- 
2.43.0


From 173790a32e053a65da1c963267a6b2299e2cb4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:01 +0000
Subject: [PATCH 48/84] fix: long double just below a power of ten was
 formatted with a leading zero digit

---
 include/efp/fmt/format.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/efp/fmt/format.h b/include/efp/fmt/format.h
index c37fee3..8a38902 100644
--- a/include/efp/fmt/format.h
+++ b/include/efp/fmt/format.h
@@ -3401,7 +3401,8 @@ EFP_FMT_CONSTEXPR20 inline void format_dragon(
         upper = &lower;
     bool shortest = num_digits < 0;
     if ((flags & dragon::fixup) != 0) {
-        if (add_compare(numerator, *upper, denominator) + even <= 0) {
+        if (shortest ? add_compare(numerator, *upper, denominator) + even <= 0
+                     : compare(numerator, denominator) < 0) {
             --exp10;
             numerator *= 10;
             if (num_digits < 0) {
-- 
2.43.0


From f5996583d80e87cc3a11a85009ac3e67f17ca214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:48 +0000
Subject: [PATCH 49/84] fix: a format spec with a point but no precision was
 accepted

---
 include/efp/fmt/core.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/fmt/core.h b/include/efp/fmt/core.h
index 75db77d..839f34b 100644
--- a/include/efp/fmt/core.h
+++ b/include/efp/fmt/core.h
@@ -2564,7 +2564,7 @@ EFP_FMT_CONSTEXPR auto parse_precision(
     basic_format_parse_context<Char>& ctx
 ) -> const Char* {
     ++begin;
-    if (begin == end || *begin == '}') {
+    if (begin == end || !(('0' <= *begin && *begin <= '9') || *begin == '{')) {
         throw_format_error("invalid precision");
         return begin;
     }
-- 
2.43.0


From 60587ce08518022e80ab6c4da5564de0e5182598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:02 +0000
Subject: [PATCH 50/84] fix: a long double power of two was formatted as a
 neighbouring number

---
 include/efp/fmt/format.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/efp/fmt/format.h b/include/efp/fmt/format.h
index 8a38902..501a386 100644
--- a/include/efp/fmt/format.h
+++ b/include/efp/fmt/format.h
@@ -1849,9 +1849,11 @@ struct basic_fp {
         f = static_cast<F>(u & significand_mask);
         auto biased_e =
             static_cast<int>((u & exponent_mask<Float>()) >> num_float_significand_bits);
-        // The predecessor is closer if n is a normalized power of 2 (f == 0)
-        // other than the smallest normalized number (biased_e > 1).
-        auto is_predecessor_closer = f == 0 && biased_e > 1;
+        // The predecessor is closer if n is a normalized power of 2 (no significand
+        // bits besides the leading one) other than the smallest normalized number
+        // (biased_e > 1).
+        const auto leading_bit = has_implicit_bit<Float>() ? carrier_uint(0) : implicit_bit >> 1;
+        auto is_predecessor_closer = f == static_cast<F>(leading_bit) && biased_e > 1;
         if (biased_e == 0)
             biased_e = 1;  // Subnormals use biased exponent 1 (min exponent).
         else if (has_implicit_bit<Float>())
-- 
2.43.0


From f608fd24e5d83edcc41da9734f8a50c7f8a39dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:02 +0000
Subject: [PATCH 51/84] fix: a subnormal long double was formatted with a wrong
 hexadecimal exponent

---
 include/efp/fmt/format.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/efp/fmt/format.h b/include/efp/fmt/format.h
index 501a386..eb4cf53 100644
--- a/include/efp/fmt/format.h
+++ b/include/efp/fmt/format.h
@@ -3513,10 +3513,8 @@ format_hexfloat(Float value, int precision, float_specs specs, buffer<char>& buf
     constexpr auto num_xdigits = (num_fraction_bits + 3) / 4;
 
     constexpr auto leading_shift = ((num_xdigits - 1) * 4);
-    const auto leading_mask = carrier_uint(0xF) << leading_shift;
-    const auto leading_xdigit = static_cast<uint32_t>((f.f & leading_mask) >> leading_shift);
-    if (leading_xdigit > 1)
-        f.e -= (32 - countl_zero(leading_xdigit) - 1);
+    // The leading digit holds more than one bit if there is no implicit bit.
+    f.e -= num_fraction_bits - leading_shift - 1;
 
     int print_xdigits = num_xdigits - 1;
     if (precision >= 0 && print_xdigits > precision) {
-- 
2.43.0


From f8c32b660bf2f452bded12b9fcb9b902508073a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:02 +0000
Subject: [PATCH 52/84] fix: a fixed format with many digits lost its last
 decimals

---
 include/efp/fmt/format.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/fmt/format.h b/include/efp/fmt/format.h
index eb4cf53..f53862b 100644
--- a/include/efp/fmt/format.h
+++ b/include/efp/fmt/format.h
@@ -3881,7 +3881,7 @@ EFP_FMT_CONSTEXPR20 auto format_float(Float value, int precision, float_specs sp
         // Limit precision to the maximum possible number of significant digits in
         // an IEEE754 double because we don't need to generate zeros.
         const int max_double_digits = 767;
-        if (precision > max_double_digits)
+        if (!fixed && precision > max_double_digits)
             precision = max_double_digits;
         format_dragon(f, dragon_flags, precision, buf, exp);
     }
-- 
2.43.0


From ac11dbef373cf2daef872943f03af14750717d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:23 +0000
Subject: [PATCH 53/84] fix: nested containers could not be formatted

---
 include/efp/format.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/efp/format.hpp b/include/efp/format.hpp
index 42e2b7d..f8dc9ae 100644
--- a/include/efp/format.hpp
+++ b/include/efp/format.hpp
@@ -58,7 +58,8 @@ struct efp_fmt::formatter<efp::Array<T, ct_size>> {
     }
 
     template<typename FormatContext>
-    auto format(const efp::Array<T, ct_size>& arr, FormatContext& ctx) -> format_context::iterator {
+    auto format(const efp::Array<T, ct_size>& arr, FormatContext& ctx) const
+        -> format_context::iterator {
         return efp_fmt::format_to(ctx.out(), "[{}]", efp_fmt::join(arr.begin(), arr.end(), ", "));
     }
 };
@@ -72,7 +73,7 @@ struct efp_fmt::formatter<efp::ArrVec<T, ct_cap>> {
     }
 
     template<typename FormatContext>
-    auto format(const efp::ArrVec<T, ct_cap>& arrvec, FormatContext& ctx)
+    auto format(const efp::ArrVec<T, ct_cap>& arrvec, FormatContext& ctx) const
         -> format_context::iterator {
         return efp_fmt::format_to(
             ctx.out(),
@@ -91,7 +92,7 @@ struct efp_fmt::formatter<efp::Vector<T, Allocator, Traits>> {
     }
 
     template<typename FormatContext>
-    auto format(const efp::Vector<T, Allocator, Traits>& vec, FormatContext& ctx)
+    auto format(const efp::Vector<T, Allocator, Traits>& vec, FormatContext& ctx) const
         -> format_context::iterator {
         return efp_fmt::format_to(ctx.out(), "[{}]", efp_fmt::join(vec.begin(), vec.end(), ", "));
     }
@@ -106,7 +107,8 @@ struct efp_fmt::formatter<efp::Vcb<T, ct_size>> {
     }
 
     template<typename FormatContext>
-    auto format(const efp::Vcb<T, ct_size>& vcb, FormatContext& ctx) -> format_context::iterator {
+    auto format(const efp::Vcb<T, ct_size>& vcb, FormatContext& ctx) const
+        -> format_context::iterator {
         return efp_fmt::format_to(ctx.out(), "[{}]", efp_fmt::join(vcb.begin(), vcb.end(), ", "));
     }
 };
@@ -120,7 +122,8 @@ struct efp_fmt::formatter<efp::Vcq<T, ct_cap>> {
     }
 
     template<typename FormatContext>
-    auto format(const efp::Vcq<T, ct_cap>& vcq, FormatContext& ctx) -> format_context::iterator {
+    auto format(const efp::Vcq<T, ct_cap>& vcq, FormatContext& ctx) const
+        -> format_context::iterator {
         return efp_fmt::format_to(ctx.out(), "[{}]", efp_fmt::join(vcq.begin(), vcq.end(), ", "));
     }
 };
-- 
2.43.0


From c12df4ae6a5ed0e2995b37c340cb2d80577ef86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:23 +0000
Subject: [PATCH 54/84] fix: the formatter of a String was ambiguous, so
 containers of strings could not be formatted

---
 include/efp/format.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/efp/format.hpp b/include/efp/format.hpp
index f8dc9ae..3b9e3a7 100644
--- a/include/efp/format.hpp
+++ b/include/efp/format.hpp
@@ -85,7 +85,10 @@ struct efp_fmt::formatter<efp::ArrVec<T, ct_cap>> {
 
 // Specialize efp_fmt::formatter for efp::Vector
 template<typename T, typename Allocator, typename Traits>
-struct efp_fmt::formatter<efp::Vector<T, Allocator, Traits>> {
+struct efp_fmt::formatter<
+    efp::Vector<T, Allocator, Traits>,
+    char,
+    efp::EnableIf<!efp::IsSame<T, char>::value>> {
     template<typename ParseContext>
     constexpr auto parse(ParseContext& ctx) const -> format_parse_context::iterator {
         return ctx.begin();
-- 
2.43.0


From e52d41a84a1331889a5ff25a7c8c88f8874a6426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:09 +0000
Subject: [PATCH 55/84] fix: a StringView could not be formatted before C++17

---
 include/efp/fmt/core.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/efp/fmt/core.h b/include/efp/fmt/core.h
index 839f34b..d24c052 100644
--- a/include/efp/fmt/core.h
+++ b/include/efp/fmt/core.h
@@ -211,11 +211,9 @@
 // libc++ supports string_view in pre-c++17.
 #if EFP_FMT_HAS_INCLUDE(<string_view>) && (EFP_FMT_CPLUSPLUS >= 201703L || defined(_LIBCPP_VERSION))
     #include <string_view>
-    #define EFP_FMT_USE_STRING_VIEW
-#elif EFP_FMT_HAS_INCLUDE("experimental/string_view") && EFP_FMT_CPLUSPLUS >= 201402L
-    #include <experimental/string_view>
-    #define EFP_FMT_USE_EXPERIMENTAL_STRING_VIEW
 #endif
+// std_string_view is efp::BasicStringView, which every standard has.
+#define EFP_FMT_USE_STRING_VIEW
 
 #ifndef EFP_FMT_UNICODE
     #define EFP_FMT_UNICODE !EFP_FMT_MSC_VERSION
-- 
2.43.0


From 2232ca87012cd75f22e1046cd8d73c50df378a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:57 +0000
Subject: [PATCH 56/84] fix: File::tell truncated positions beyond the range of
 int

---
 include/efp/io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/io.hpp b/include/efp/io.hpp
index 8073683..3edeeaf 100644
--- a/include/efp/io.hpp
+++ b/include/efp/io.hpp
@@ -145,7 +145,7 @@ public:
         return _file && std::fseek(_file, offset, SEEK_SET) == 0;
     }
 
-    int tell() {
+    long tell() {
         return _file ? std::ftell(_file) : -1;
     }
 
-- 
2.43.0


From 7c1e9d91de92ed538a065ce5637dfaeba1c73ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:17 +0000
Subject: [PATCH 57/84] fix: DoubleBuffer of a std type did not compile, swap
 was ambiguous

---
 include/efp/concurrency.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/concurrency.hpp b/include/efp/concurrency.hpp
index 3847d82..b71194a 100644
--- a/include/efp/concurrency.hpp
+++ b/include/efp/concurrency.hpp
@@ -223,7 +223,7 @@ public:
 
     void swap_buffer() {
         std::lock_guard<Spinlock> lock(_spinlock);
-        swap(_write_buffer, _read_buffer);
+        efp::swap(_write_buffer, _read_buffer);
     }
 
     A dequeue() {
-- 
2.43.0


From 13df81f345dbcbd37d25242dc20d0193166a7dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:44 +0000
Subject: [PATCH 58/84] fix: sorting elements associated with namespace std did
 not compile, swap was ambiguous

---
 include/efp/sort.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/efp/sort.hpp b/include/efp/sort.hpp
index 1943e65..85e7bbd 100644
--- a/include/efp/sort.hpp
+++ b/include/efp/sort.hpp
@@ -65,7 +65,7 @@ void max_heapify_by(Vector<A>& arr, size_t n, size_t i, const F& comp) {
         largest = right;
 
     if (largest != i) {
-        swap(arr[i], arr[largest]);
+        efp::swap(arr[i], arr[largest]);
         max_heapify_by(arr, n, largest, comp);
     }
 }
@@ -84,7 +84,7 @@ void heapsort_by(Vector<A>& arr, const F& comp) {
 
     // One by one extract an element from heap
     for (size_t i = n; i-- > 1;) {  // Start from n and decrement; stop at 1 to avoid underflow
-        swap(arr[0], arr[i]);       // Move current root to end
+        efp::swap(arr[0], arr[i]);       // Move current root to end
         max_heapify_by(arr, i, 0, comp);  // call max heapify on the reduced heap
     }
 }
@@ -122,10 +122,10 @@ size_t partition_by(Vector<A>& arr, size_t low, size_t high, const F& comp) {
     for (size_t j = low; j < high; j++) {
         if (comp(arr[j], pivot)) {
             i++;
-            swap(arr[i], arr[j]);
+            efp::swap(arr[i], arr[j]);
         }
     }
-    swap(arr[i + 1], arr[high]);
+    efp::swap(arr[i + 1], arr[high]);
     return (i + 1);
 }
 
-- 
2.43.0


From bc2c1668e8859abc31dfe1f4034170f7148b55e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:05 +0000
Subject: [PATCH 59/84] fix: linear_regression_with_index and detrend did not
 compile for a result type other than double

---
 include/efp/scientific.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/scientific.hpp b/include/efp/scientific.hpp
index 5077e0f..9c8dbcc 100644
--- a/include/efp/scientific.hpp
+++ b/include/efp/scientific.hpp
@@ -154,8 +154,8 @@ Tuple<R, R> linear_regression_with_index(const As& as) {
     const auto ss_ia = sum(map_with_index(get_ss_ia, as));
     const auto ss_ii = n * (static_cast<double>(n) * n - 1) / 12.;
 
-    const auto beta_1 = ss_ia / ss_ii;
-    const auto beta_2 = as_mean - (beta_1 * mean_is);
+    const R beta_1 = ss_ia / ss_ii;
+    const R beta_2 = as_mean - (beta_1 * mean_is);
 
     return tuple(beta_1, beta_2);
 }
-- 
2.43.0


From a8e9e6a430de8cbaffee41791c62e289d69c9295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:05 +0000
Subject: [PATCH 60/84] fix: is_approx of a floating and an integral number of
 the same or larger size compared integers

---
 include/efp/numeric.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/numeric.hpp b/include/efp/numeric.hpp
index 3b08601..4ca1752 100644
--- a/include/efp/numeric.hpp
+++ b/include/efp/numeric.hpp
@@ -17,7 +17,7 @@ constexpr A abs(const A& a) {
 
 template<typename A, typename B>
 constexpr A is_approx(const A& lhs, const B& rhs) {
-    using MorePrecise = Conditional<(sizeof(A) > sizeof(B)), A, B>;
+    using MorePrecise = Common<A, B>;
 
     return abs(static_cast<MorePrecise>(lhs) - static_cast<MorePrecise>(rhs))
         <= NumericLimits<MorePrecise>::epsilon();
-- 
2.43.0


From a9dc6e8295effb6508f15431b72b2953bd9d0899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:18 +0000
Subject: [PATCH 61/84] fix: equality of containers of containers did not
 compile before C++20

---
 include/efp/sequence.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index d8b3eaf..b66f66c 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -116,7 +116,7 @@ public:
 
     bool operator==(const Array& other) const {
         for (size_t i = 0; i < ct_size; ++i) {
-            if (_data[i] != other._data[i]) {
+            if (!(_data[i] == other._data[i])) {
                 return false;
             }
         }
@@ -340,7 +340,7 @@ public:
         }
 
         for (size_t i = 0; i < _size; ++i) {
-            if (_data[i] != other._data[i]) {
+            if (!(_data[i] == other._data[i])) {
                 return false;
             }
         }
@@ -694,7 +694,7 @@ namespace detail {
             }
 
             for (size_t i = 0; i < _size; ++i) {
-                if (_data[i] != other._data[i]) {
+                if (!(_data[i] == other._data[i])) {
                     return false;
                 }
             }
-- 
2.43.0


From a68433671432f01bb8a56b9f7e13d90f976a1231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:18 +0000
Subject: [PATCH 62/84] fix: equality of a Tuple required operator!= of all but
 the first component

---
 include/efp/meta.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/meta.hpp b/include/efp/meta.hpp
index 6e531f7..da3036d 100644
--- a/include/efp/meta.hpp
+++ b/include/efp/meta.hpp
@@ -650,7 +650,7 @@ namespace detail {
     struct TupleLeafComparatorImpl {
         template<typename... As>
         static bool compare(const Tuple<As...>& lhs, const Tuple<As...>& rhs) {
-            if (lhs.template get<index>() != rhs.template get<index>())
+            if (!(lhs.template get<index>() == rhs.template get<index>()))
                 return false;
             return TupleLeafComparatorImpl<index - 1>::compare(lhs, rhs);
         }
-- 
2.43.0


From ea60bd1542ca137f0dfc7005e51a3b1d93fabfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:00 +0000
Subject: [PATCH 63/84] fix: _sum and _product accumulated in int and truncated
 large sizes and fractions

---
 include/efp/meta.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/meta.hpp b/include/efp/meta.hpp
index da3036d..1c01a56 100644
--- a/include/efp/meta.hpp
+++ b/include/efp/meta.hpp
@@ -810,13 +810,13 @@ constexpr A _minimum(const A (&as)[n]) {
 // _sum :: [A] -> A
 template<typename A, size_t n>
 constexpr A _sum(const A (&as)[n]) {
-    return _foldl(op_add<A>, 0, as);
+    return _foldl(op_add<A>, static_cast<A>(0), as);
 }
 
 // _product :: [A] -> A
 template<typename A, size_t n>
 constexpr A _product(const A (&as)[n]) {
-    return _foldl(op_mul<A>, 1, as);
+    return _foldl(op_mul<A>, static_cast<A>(1), as);
 }
 
 // All
-- 
2.43.0


From 32350e7bcd73ac7c4798c34fdbda629c822cfdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:00 +0000
Subject: [PATCH 64/84] fix: _maximum of negative floating numbers was the
 smallest positive one

---
 include/efp/meta.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/meta.hpp b/include/efp/meta.hpp
index 1c01a56..6089f50 100644
--- a/include/efp/meta.hpp
+++ b/include/efp/meta.hpp
@@ -798,7 +798,7 @@ constexpr bool _any(const bool (&bs)[n]) {
 // _maximum :: [A] -> A
 template<typename A, size_t n>
 constexpr A _maximum(const A (&as)[n]) {
-    return _foldl(max<A>, NumericLimits<A>::min(), as);
+    return _foldl(max<A>, NumericLimits<A>::lowest(), as);
 }
 
 // _minimum :: [A] -> A
-- 
2.43.0


From ef7ae8e98e7febefdf51fdcbe872c4346932f39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:00 +0000
Subject: [PATCH 65/84] fix: func_ptr of a closure taking move-only or rvalue
 reference arguments did not compile

---
 include/efp/c_utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/c_utility.hpp b/include/efp/c_utility.hpp
index 439f0f3..7d2e9cd 100644
--- a/include/efp/c_utility.hpp
+++ b/include/efp/c_utility.hpp
@@ -29,7 +29,7 @@ struct LambdaPointer {
     template<typename... Args>
     struct Helper<Tuple<Args...>> {
         static InvokeResult<F, Args...> call(Args... args) {
-            return (InvokeResult<F, Args...>)(*(F*)inner_ptr)(args...);
+            return (InvokeResult<F, Args...>)(*(F*)inner_ptr)(efp::forward<Args>(args)...);
         }
     };
 
-- 
2.43.0


From a4de9c217bfba7d09eef0e3b162426178e0d1d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:17 +0000
Subject: [PATCH 66/84] fix: IsDefaultConstructible was false for every type

---
 include/efp/meta.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/meta.hpp b/include/efp/meta.hpp
index 6089f50..785c140 100644
--- a/include/efp/meta.hpp
+++ b/include/efp/meta.hpp
@@ -763,7 +763,7 @@ template<typename A, typename = void>
 struct IsDefaultConstructible: False {};
 
 template<typename A>
-struct IsDefaultConstructible<A, decltype(A())>: True {};
+struct IsDefaultConstructible<A, Void<decltype(A())>>: True {};
 
 // InitializerList
 
-- 
2.43.0


From c8a39cc3f5a4e96e829bfda40474e8b8c271657e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:17 +0000
Subject: [PATCH 67/84] fix: IsInvocableR with a void result was false before
 C++17 unless the callable returns void

---
 include/efp/meta.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/efp/meta.hpp b/include/efp/meta.hpp
index 785c140..5620118 100644
--- a/include/efp/meta.hpp
+++ b/include/efp/meta.hpp
@@ -418,8 +418,7 @@ private:
     // A helper to try invoking the function and check the return type
     template<typename U>
     static auto test(int)
-        -> decltype(std::is_convertible<decltype(std::declval<U>()(std::declval<Args>()...)), R>::
-                        type());
+        -> Bool<std::is_void<R>::value || std::is_convertible<decltype(std::declval<U>()(std::declval<Args>()...)), R>::value>;
 
     // Fallback if the above test fails
     template<typename>
-- 
2.43.0


From 4eb00f4abe93eb8f3e3586890333c63fb4f9d948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:09 +0000
Subject: [PATCH 68/84] fix: noexcept functions and closures were not
 recognised as callables in C++17 and later

---
 include/efp/meta.hpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/include/efp/meta.hpp b/include/efp/meta.hpp
index 5620118..da9c7bd 100644
--- a/include/efp/meta.hpp
+++ b/include/efp/meta.hpp
@@ -474,6 +474,14 @@ namespace detail {
         using Type = Ret (*)(Args...);
     };
 
+#if __cplusplus >= 201703L
+    // noexcept is a part of the function type
+    template<typename Ret, typename... Args>
+    struct FuncToFuncPtrImpl<Ret(Args...) noexcept> {
+        using Type = Ret (*)(Args...) noexcept;
+    };
+#endif
+
     // Specializations for member functions
     template<typename Ret, typename ClassType, typename... Args>
     struct FuncToFuncPtrImpl<Ret (ClassType::*)(Args...)> {
@@ -733,6 +741,24 @@ namespace detail {
     struct ArgumentsImpl<R (A::*)(Args...) const, void> {
         using Type = Tuple<Args...>;
     };
+
+#if __cplusplus >= 201703L
+    // noexcept is a part of the function type
+    template<typename R, typename... Args>
+    struct ArgumentsImpl<R (*)(Args...) noexcept, void> {
+        using Type = Tuple<Args...>;
+    };
+
+    template<typename R, typename A, typename... Args>
+    struct ArgumentsImpl<R (A::*)(Args...) noexcept, void> {
+        using Type = Tuple<Args...>;
+    };
+
+    template<typename R, typename A, typename... Args>
+    struct ArgumentsImpl<R (A::*)(Args...) const noexcept, void> {
+        using Type = Tuple<Args...>;
+    };
+#endif
 }  // namespace detail
 
 template<typename F>
-- 
2.43.0


From eb848e9b3617ce0d5e8a2a9d2efcb64848760f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:27 +0000
Subject: [PATCH 69/84] fix: calling a composition with a standard library
 object was ambiguous

---
 include/efp/prelude.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/efp/prelude.hpp b/include/efp/prelude.hpp
index 2090b69..f4c00f3 100644
--- a/include/efp/prelude.hpp
+++ b/include/efp/prelude.hpp
@@ -31,8 +31,8 @@ struct Composed<F> {
     Composed(const F& f) : f(f) {}
 
     template<typename... Arg>
-    inline auto operator()(Arg&&... arg) const -> decltype(f(forward<Arg>(arg)...)) {
-        return f(forward<Arg>(arg)...);
+    inline auto operator()(Arg&&... arg) const -> decltype(f(efp::forward<Arg>(arg)...)) {
+        return f(efp::forward<Arg>(arg)...);
     }
 };
 
@@ -44,8 +44,8 @@ struct Composed<F, Fs...> {
     Composed(const F& f, const Fs&... fs) : f(f), fs(Composed<Fs...>(fs...)) {}
 
     template<typename... Arg>
-    inline auto operator()(Arg&&... arg) const -> decltype(f(fs(forward<Arg>(arg)...))) {
-        return f(fs(forward<Arg>(arg)...));
+    inline auto operator()(Arg&&... arg) const -> decltype(f(fs(efp::forward<Arg>(arg)...))) {
+        return f(fs(efp::forward<Arg>(arg)...));
     }
 };
 
-- 
2.43.0


From ee9402dc6e7c1ffbd90bd07e7560ff487aa0882c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:46 +0000
Subject: [PATCH 70/84] fix: Vector and String with an allocator of their own
 did not compile

---
 include/efp/sequence.hpp | 2 +-
 include/efp/string.hpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index b66f66c..d6e7fa3 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -1006,7 +1006,7 @@ template<
     typename = void>
 class Vector: public detail::VectorBase<A, Allocator> {
 public:
-    using Base = detail::VectorBase<A>;
+    using Base = detail::VectorBase<A, Allocator>;
     using Base::Base;
 
     bool operator==(const Vector& other) const {
diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index 6a81516..ce9d7ea 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -21,7 +21,7 @@ template<typename Char, typename Traits, typename Allocator>
 class Vector<Char, Allocator, Traits, EnableIf<detail::IsCharType<Char>::value>>:
     public detail::VectorBase<Char, Allocator> {
 public:
-    using Base = detail::VectorBase<Char>;
+    using Base = detail::VectorBase<Char, Allocator>;
     using Base::Base;
 
     using traits_type = Traits;
-- 
2.43.0


From 9c9852b06660170269ed760c438dae15c7f702cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:59 +0000
Subject: [PATCH 71/84] fix: Vector returned a null block to its allocator

---
 include/efp/sequence.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index d6e7fa3..67c1fed 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -617,7 +617,9 @@ namespace detail {
                     AllocatorTraits<Allocator>::destroy(_allocator, _data + i);
                 }
                 // _allocator.deallocate(_data, _capacity);
-                AllocatorTraits<Allocator>::deallocate(_allocator, _data, _capacity);
+                if (_data) {
+                    AllocatorTraits<Allocator>::deallocate(_allocator, _data, _capacity);
+                }
 
                 _data = other._data;
                 _size = other._size;
@@ -752,7 +754,9 @@ namespace detail {
                 }
 
                 // _allocator.deallocate(_data, _capacity);
-                AllocatorTraits<Allocator>::deallocate(_allocator, _data, _capacity);
+                if (_data) {
+                    AllocatorTraits<Allocator>::deallocate(_allocator, _data, _capacity);
+                }
 
                 _data = new_data;
                 _capacity = new_capacity;
@@ -780,7 +784,9 @@ namespace detail {
                     AllocatorTraits<Allocator>::destroy(_allocator, _data + i);
                 }
                 // _allocator.deallocate(_data, _capacity);
-                AllocatorTraits<Allocator>::deallocate(_allocator, _data, _capacity);
+                if (_data) {
+                    AllocatorTraits<Allocator>::deallocate(_allocator, _data, _capacity);
+                }
 
                 // Update data pointer and capacity
                 _data = new_data;
-- 
2.43.0


From 6e07c24d6189e01ff6b7f40a21bace8ff57e3fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:49 +0000
Subject: [PATCH 72/84] fix: the freestanding Allocator could only construct
 copies, so resize did not compile

---
 include/efp/allocator.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/efp/allocator.hpp b/include/efp/allocator.hpp
index 76c90f4..c4a5f51 100644
--- a/include/efp/allocator.hpp
+++ b/include/efp/allocator.hpp
@@ -77,8 +77,9 @@ public:
         return size_type(-1) / sizeof(T);
     }
 
-    void construct(pointer p, const T& t) {
-        new (p) T(t);
+    template<typename U, typename... Args>
+    void construct(U* p, Args&&... args) {
+        new (p) U(std::forward<Args>(args)...);
     }
 
     void destroy(pointer p) {
-- 
2.43.0


From b0f705981f7d9a1845d53a12298865d377143977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:49 +0000
Subject: [PATCH 73/84] fix: the freestanding Allocator ignored the alignment
 of over-aligned elements

---
 include/efp/allocator.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/efp/allocator.hpp b/include/efp/allocator.hpp
index c4a5f51..f5f6273 100644
--- a/include/efp/allocator.hpp
+++ b/include/efp/allocator.hpp
@@ -66,10 +66,21 @@ public:
     Allocator(const Allocator<U>&) noexcept {}
 
     pointer allocate(size_type n) {
+#if defined(__cpp_aligned_new)
+        if (alignof(T) > __STDCPP_DEFAULT_NEW_ALIGNMENT__) {
+            return static_cast<pointer>(::operator new(n * sizeof(T), std::align_val_t(alignof(T))));
+        }
+#endif
         return static_cast<pointer>(::operator new(n * sizeof(T)));
     }
 
     void deallocate(pointer p, size_type) {
+#if defined(__cpp_aligned_new)
+        if (alignof(T) > __STDCPP_DEFAULT_NEW_ALIGNMENT__) {
+            ::operator delete(p, std::align_val_t(alignof(T)));
+            return;
+        }
+#endif
         ::operator delete(p);
     }
 
-- 
2.43.0


From 17dee302184f7649a1e0141a50141da0043a1b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:17 +0000
Subject: [PATCH 74/84] fix: the freestanding Allocator allocated too little
 when the size in bytes overflowed

---
 include/efp/allocator.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/efp/allocator.hpp b/include/efp/allocator.hpp
index f5f6273..1af7dbe 100644
--- a/include/efp/allocator.hpp
+++ b/include/efp/allocator.hpp
@@ -66,6 +66,10 @@ public:
     Allocator(const Allocator<U>&) noexcept {}
 
     pointer allocate(size_type n) {
+        if (n > max_size()) {
+            throw std::bad_alloc();
+        }
+
 #if defined(__cpp_aligned_new)
         if (alignof(T) > __STDCPP_DEFAULT_NEW_ALIGNMENT__) {
             return static_cast<pointer>(::operator new(n * sizeof(T), std::align_val_t(alignof(T))));
-- 
2.43.0


From 496af77296960b503af90b6e32b631ca243667a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:26 +0000
Subject: [PATCH 75/84] fix: String read its freed or moved characters when
 appending or inserting part of itself

---
 include/efp/string.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index ce9d7ea..7781531 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -125,6 +125,10 @@ public:
     }
 
     Vector& append(const Char* c_str) {
+        if (owns(c_str)) {
+            return append(Vector(c_str).c_str());
+        }
+
         const size_t len = Traits::length(c_str);
 
         for (size_t i = 0; i < len; ++i) {
@@ -157,6 +161,10 @@ public:
             throw RuntimeError("Index out of range");
         }
 
+        if (owns(c_str)) {
+            return insert(pos, Vector(c_str).c_str());
+        }
+
         const size_t len = Traits::length(c_str);
         // Always reserve one extra space for the null character
         Base::reserve(Base::_size + len + 1);
@@ -179,6 +187,10 @@ public:
             throw RuntimeError("Index out of range");
         }
 
+        if (owns(c_str)) {
+            return insert(pos, Vector(c_str, n).c_str(), n);
+        }
+
         // Always reserve one extra space for the null character
         Base::reserve(Base::_size + n + 1);
 
@@ -265,6 +277,12 @@ public:
         return std::string(Base::_data, Base::_size);
     }
 #endif
+
+private:
+    // Whether the characters are the string's own, which do not stay where they are when it grows
+    bool owns(const Char* c_str) const {
+        return Base::_data != nullptr && c_str >= Base::_data && c_str <= Base::_data + Base::_size;
+    }
 };  // class Vector
 
 template<
-- 
2.43.0


From 14b0803a8a52ff1bea788793bf692f8561dde743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:42 +0000
Subject: [PATCH 76/84] fix: resize and the String fill constructor wrote out
 of bounds when length plus one overflowed

---
 include/efp/sequence.hpp | 4 ++++
 include/efp/string.hpp   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index 67c1fed..5db0fcd 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -718,6 +718,10 @@ namespace detail {
         }
 
         void resize(size_t new_size) {
+            if (new_size >= max_size()) {
+                throw RuntimeError("VectorBase::resize: length must be less than max_size");
+            }
+
             // Always allocate one extra space for BasicString null terminator
             if (new_size + 1 > _capacity) {
                 reserve(new_size + 1);
diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index 7781531..6e2d6d6 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -44,6 +44,10 @@ public:
     }
 
     Vector(size_t size, Char c) {
+        if (size >= Base::max_size()) {
+            throw RuntimeError("BasicString::BasicString: length must be less than max_size");
+        }
+
         Base::_capacity = size + 1;
         Base::_data = AllocatorTraits<Allocator>::allocate(Base::_allocator, Base::_capacity);
         Base::_size = size;
-- 
2.43.0


From 7c952db512d665f88ca7864ad2befdaf6fad73fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:35 +0000
Subject: [PATCH 77/84] fix: a String append or assign that ran out of memory
 left the string changed

---
 include/efp/string.hpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index 6e2d6d6..529b7f6 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -120,6 +120,7 @@ public:
 
     Vector& operator+=(const Vector& other) {
         const size_t other_size = other.size();  // The other could be this
+        make_room(other_size);
 
         for (size_t i = 0; i < other_size; ++i) {
             Base::push_back(other[i]);
@@ -134,6 +135,7 @@ public:
         }
 
         const size_t len = Traits::length(c_str);
+        make_room(len);
 
         for (size_t i = 0; i < len; ++i) {
             Base::push_back(c_str[i]);
@@ -143,6 +145,8 @@ public:
     }
 
     Vector& append(size_t n, Char c) {
+        make_room(n);
+
         for (size_t i = 0; i < n; ++i) {
             Base::push_back(c);
         }
@@ -151,13 +155,11 @@ public:
     }
 
     Vector& assign(const Char* c_str) {
-        Base::clear();
-        return append(c_str);
+        return *this = Vector(c_str);
     }
 
     Vector& assign(size_t n, Char c) {
-        Base::clear();
-        return append(n, c);
+        return *this = Vector(n, c);
     }
 
     Vector& insert(size_t pos, const Char* c_str) {
@@ -283,6 +285,18 @@ public:
 #endif
 
 private:
+    // Room for more characters and the null character at once, so that a failure changes nothing
+    void make_room(size_t n) {
+        if (n >= Base::max_size() - Base::_size) {
+            throw RuntimeError("BasicString: length must be less than max_size");
+        }
+
+        if (n >= Base::_capacity - Base::_size) {
+            const size_t least = Base::_size + n + 1;
+            Base::reserve(least < 2 * Base::_capacity ? 2 * Base::_capacity : least);
+        }
+    }
+
     // Whether the characters are the string's own, which do not stay where they are when it grows
     bool owns(const Char* c_str) const {
         return Base::_data != nullptr && c_str >= Base::_data && c_str <= Base::_data + Base::_size;
-- 
2.43.0


From ccde60107c3fb62cf41fbbd5132657d96b6e1c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:54 +0000
Subject: [PATCH 78/84] fix: Vector copy assignment ended the program when
 memory ran out

---
 include/efp/sequence.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index 5db0fcd..cf23e13 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -583,20 +583,20 @@ namespace detail {
         }
 
         // todo copy_and_swap
-        VectorBase& operator=(const VectorBase& other) noexcept {
+        VectorBase& operator=(const VectorBase& other) {
             if (this != &other) {
-                clear();
-
+                // Before the elements are gone, as it may fail
                 if (_capacity < other._size + 1) {
                     reserve(other._size + 1);
                 }
 
+                clear();
+
                 for (size_t i = 0; i < other._size; ++i) {
                     // _allocator.construct(_data + i, other._data[i]);
                     AllocatorTraits<Allocator>::construct(_allocator, _data + i, other._data[i]);
+                    ++_size;
                 }
-
-                _size = other._size;
             }
 
             return *this;
-- 
2.43.0


From b36225345eafb4d9f6010f45683588e057d87b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:43 +0000
Subject: [PATCH 79/84] fix: ArrVec counted an element as held before its copy
 was made, and leaked when a copy failed

---
 include/efp/sequence.hpp | 39 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index cf23e13..805894f 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -251,22 +251,19 @@ public:
         // By definition none of the data in ArrVec of size 0 should be valid
     }
 
-    ArrVec(const ArrVec& other) : _size {other._size} {
-        for (size_t i = 0; i < _size; ++i) {
-            new (_data + i) Element {other._data[i]};
+    // Delegates, so that the elements made so far are destroyed if the copy of the next one fails
+    ArrVec(const ArrVec& other) : ArrVec() {
+        for (; _size < other._size; ++_size) {
+            new (_data + _size) Element {other._data[_size]};
         }
     }
 
     ArrVec& operator=(const ArrVec& other) {
         if (this != &other) {
-            for (size_t i = 0; i < _size; ++i) {
-                (_data + i)->~Element();
-            }
-
-            _size = other._size;
+            clear();
 
-            for (size_t i = 0; i < _size; ++i) {
-                new (_data + i) Element {other._data[i]};  // Copy-construct each element
+            for (; _size < other._size; ++_size) {
+                new (_data + _size) Element {other._data[_size]};  // Copy-construct each element
             }
         }
         return *this;
@@ -307,22 +304,22 @@ public:
 
     // Constructor from array
     template<size_t ct_size_, typename = EnableIf<ct_capacity >= ct_size_, void>>
-    ArrVec(const ArrVec<Element, ct_size_>& as) : _size(as.size()) {
-        for (size_t i = 0; i < _size; ++i) {
-            new (_data + i) Element {as[i]};
+    ArrVec(const ArrVec<Element, ct_size_>& as) : ArrVec() {
+        for (; _size < as.size(); ++_size) {
+            new (_data + _size) Element {as[_size]};
         }
     }
 
-    ArrVec(InitializerList<Element> il) : _size(il.size()) {
+    ArrVec(InitializerList<Element> il) : ArrVec() {
         if (il.size() > ct_capacity) {
             throw RuntimeError(
                 "ArrVec::ArrVec: number of arguments must be less than or equal to ct_capacity"
             );
         }
 
-        size_t index = 0;
         for (const auto& e : il) {
-            new (_data + index++) Element {e};
+            new (_data + _size) Element {e};
+            ++_size;
         }
     }
 
@@ -361,8 +358,8 @@ public:
             throw RuntimeError("ArrVec::resize: length must be less than or equal to ct_capacity");
         }
 
-        for (size_t i = _size; i < length; ++i) {
-            new (_data + i) Element {};
+        for (; _size < length; ++_size) {
+            new (_data + _size) Element {};
         }
 
         for (size_t i = length; i < _size; ++i) {
@@ -383,7 +380,8 @@ public:
         if (_size >= ct_capacity) {
             throw RuntimeError("ArrVec::push_back: size must be less than or equal to ct_capacity");
         } else {
-            new (_data + _size++) Element {value};
+            new (_data + _size) Element {value};
+            ++_size;
         }
     }
 
@@ -391,7 +389,8 @@ public:
         if (_size >= ct_capacity) {
             throw RuntimeError("ArrVec::push_back: size must be less than or equal to ct_capacity");
         } else {
-            new (_data + _size++) Element {efp::move(value)};
+            new (_data + _size) Element {efp::move(value)};
+            ++_size;
         }
     }
 
-- 
2.43.0


From 318a751f24b32e6b6763f65915591fdab5942e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:44 +0000
Subject: [PATCH 80/84] fix: Vector leaked when the copy of an element failed
 in a constructor or in resize

---
 include/efp/sequence.hpp | 62 ++++++++++++++++------------------------
 1 file changed, 25 insertions(+), 37 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index 805894f..8a120bb 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -567,17 +567,9 @@ namespace detail {
         VectorBase() : _allocator(Allocator()), _data(nullptr), _size(0), _capacity(0) {}
 
         VectorBase(const VectorBase& other)
-            : _allocator(other._allocator), _data(nullptr), _size(other._size),
-              _capacity(other._capacity) {
+            : _allocator(other._allocator), _data(nullptr), _size(0), _capacity(other._capacity) {
             if (other._data) {
-                // Member function call in not allowed in member initializer list
-                // _data = _allocator.allocate(_capacity);
-                _data = AllocatorTraits<Allocator>::allocate(_allocator, _capacity);
-
-                for (size_t i = 0; i < _size; ++i) {
-                    // _allocator.construct(_data + i, other._data[i]);
-                    AllocatorTraits<Allocator>::construct(_allocator, _data + i, other._data[i]);
-                }
+                _construct_from(other._data, other._size);
             }
         }
 
@@ -633,39 +625,20 @@ namespace detail {
         }
 
         VectorBase(InitializerList<Element> il)
-            : _allocator(Allocator()), _size(il.size()), _capacity(il.size() + 1) {
-            // _data = _allocator.allocate(_capacity);
-            _data = AllocatorTraits<Allocator>::allocate(_allocator, _capacity);
-
-            size_t index = 0;
-            for (const auto& e : il) {
-                // _allocator.construct(_data + index++, e);
-                AllocatorTraits<Allocator>::construct(_allocator, _data + index++, e);
-            }
+            : _allocator(Allocator()), _data(nullptr), _size(0), _capacity(il.size() + 1) {
+            _construct_from(il.begin(), il.size());
         }
 
         template<size_t ct_size_>
         VectorBase(const Array<Element, ct_size_>& as)
-            : _allocator(Allocator()), _size(ct_size_), _capacity(ct_size_ + 1) {
-            // _data = _allocator.allocate(_capacity);
-            _data = AllocatorTraits<Allocator>::allocate(_allocator, _capacity);
-
-            for (size_t i = 0; i < _size; ++i) {
-                // _allocator.construct(_data + i, as[i]);
-                AllocatorTraits<Allocator>::construct(_allocator, _data + i, as[i]);
-            }
+            : _allocator(Allocator()), _data(nullptr), _size(0), _capacity(ct_size_ + 1) {
+            _construct_from(as.data(), as.size());
         }
 
         template<size_t ct_cap_>
         VectorBase(const ArrVec<Element, ct_cap_>& as)
-            : _allocator(Allocator()), _size(as.size()), _capacity(as.size() + 1) {
-            // _data = _allocator.allocate(_capacity);
-            _data = AllocatorTraits<Allocator>::allocate(_allocator, _capacity);
-
-            for (size_t i = 0; i < _size; ++i) {
-                // _allocator.construct(_data + i, as[i]);
-                AllocatorTraits<Allocator>::construct(_allocator, _data + i, as[i]);
-            }
+            : _allocator(Allocator()), _data(nullptr), _size(0), _capacity(as.size() + 1) {
+            _construct_from(as.data(), as.size());
         }
 
         ~VectorBase() {
@@ -726,8 +699,8 @@ namespace detail {
                 reserve(new_size + 1);
             }
 
-            for (size_t i = _size; i < new_size; ++i) {
-                AllocatorTraits<Allocator>::construct(_allocator, _data + i);
+            for (; _size < new_size; ++_size) {
+                AllocatorTraits<Allocator>::construct(_allocator, _data + _size);
             }
 
             for (size_t i = new_size; i < _size; ++i) {
@@ -938,6 +911,21 @@ namespace detail {
         }
 
     protected:
+        // For constructors, whose destructor would not run if the copy of an element failed
+        void _construct_from(const Element* source, size_t length) {
+            _data = AllocatorTraits<Allocator>::allocate(_allocator, _capacity);
+
+            try {
+                for (; _size < length; ++_size) {
+                    AllocatorTraits<Allocator>::construct(_allocator, _data + _size, source[_size]);
+                }
+            } catch (...) {
+                clear();
+                AllocatorTraits<Allocator>::deallocate(_allocator, _data, _capacity);
+                throw;
+            }
+        }
+
         template<typename Last>
         void _construct_elements(size_t& index, const Last& last) {
             // _allocator.construct(_data + index++, last);
-- 
2.43.0


From 1031ec7402b737e56dfc1bb5d9d4d623fcf67117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:14 +0000
Subject: [PATCH 81/84] fix: Array leaked or destroyed an element twice when
 the copy of an element failed

---
 include/efp/sequence.hpp | 50 +++++++++++++++++++++++++++++++++-------
 1 file changed, 42 insertions(+), 8 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index 8a120bb..80929f8 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -29,6 +29,33 @@ using AllocatorTraits = std::allocator_traits<A>;
 
 namespace efp {
 
+namespace detail {
+    // Destroys the elements a constructor has made so far if it does not complete
+    template<typename Element>
+    struct PartialElements {
+        explicit PartialElements(Element* data) : size(0), _data(data) {}
+
+        PartialElements(const PartialElements&) = delete;
+
+        PartialElements& operator=(const PartialElements&) = delete;
+
+        ~PartialElements() {
+            for (size_t i = 0; i < size; ++i) {
+                (_data + i)->~Element();
+            }
+        }
+
+        void complete() {
+            size = 0;
+        }
+
+        size_t size;
+
+    private:
+        Element* _data;
+    };
+}  // namespace detail
+
 template<typename A, size_t ct_size>
 class Array {
 public:
@@ -52,22 +79,27 @@ public:
 
     Array() {
         // By definition all of the data in Array should be valid
-        for (size_t i = 0; i < ct_size; ++i) {
-            new (_data + i) Element {};
+        detail::PartialElements<Element> made(_data);
+        for (; made.size < ct_size; ++made.size) {
+            new (_data + made.size) Element {};
         }
+        made.complete();
     }
 
     Array(const Array& other) {
-        for (size_t i = 0; i < ct_size; ++i) {
-            new (_data + i) Element {other._data[i]};
+        detail::PartialElements<Element> made(_data);
+        for (; made.size < ct_size; ++made.size) {
+            new (_data + made.size) Element {other._data[made.size]};
         }
+        made.complete();
     }
 
     Array& operator=(const Array& other) {
         if (this != &other) {
             for (size_t i = 0; i < ct_size; ++i) {
-                (_data + i)->~Element();                   // Destroy each element
-                new (_data + i) Element {other._data[i]};  // Copy-construct each element
+                Element copied {other._data[i]};             // Copy first, as it may fail
+                (_data + i)->~Element();                     // Destroy each element
+                new (_data + i) Element {efp::move(copied)};
             }
         }
         return *this;
@@ -100,10 +132,12 @@ public:
             throw RuntimeError("Array::Array: number of arguments must be equal to ct_size");
         }
 
-        size_t index = 0;
+        detail::PartialElements<Element> made(_data);
         for (const auto& e : il) {
-            new (_data + index++) Element {e};
+            new (_data + made.size) Element {e};
+            ++made.size;
         }
+        made.complete();
     }
 
     Element& operator[](size_t index) {
-- 
2.43.0


From eab41429b7db9f035606aa2d5f705e3c71681c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:38 +0000
Subject: [PATCH 82/84] fix: Vcb and Vcq destroyed elements twice or leaked
 when the copy of an element failed

---
 include/efp/cyclic.hpp | 66 +++++++++++++++++++++---------------------
 1 file changed, 33 insertions(+), 33 deletions(-)

diff --git a/include/efp/cyclic.hpp b/include/efp/cyclic.hpp
index 2609932..3a624cb 100644
--- a/include/efp/cyclic.hpp
+++ b/include/efp/cyclic.hpp
@@ -17,16 +17,20 @@ class Vcb {
     static constexpr size_t ct_capacity = n;
 
     Vcb() {
-        for (size_t i = 0; i < ct_size * 2; ++i) {
-            new (_buffer + i) A {};
+        detail::PartialElements<A> made(_buffer);
+        for (; made.size < ct_size * 2; ++made.size) {
+            new (_buffer + made.size) A {};
         }
+        made.complete();
         _data = _buffer;
     }
 
     Vcb(const Vcb& other) {
-        for (size_t i = 0; i < ct_size * 2; ++i) {
-            new (_buffer + i) A(other._buffer[i]);
+        detail::PartialElements<A> made(_buffer);
+        for (; made.size < ct_size * 2; ++made.size) {
+            new (_buffer + made.size) A(other._buffer[made.size]);
         }
+        made.complete();
         _data = _buffer + (other._data - other._buffer);
     }
 
@@ -36,8 +40,9 @@ class Vcb {
         }
 
         for (size_t i = 0; i < ct_size * 2; ++i) {
+            A copied(other._buffer[i]);  // Copy first, as it may fail
             (_buffer + i)->~A();
-            new (_buffer + i) A(other._buffer[i]);
+            new (_buffer + i) A(efp::move(copied));
         }
         _data = _buffer + (other._data - other._buffer);
         return *this;
@@ -80,11 +85,13 @@ class Vcb {
     }
 
     void push_back(A value) {
+        A copied {value};  // Copy first, as it may fail
+
         _data->~A();
         (_data + ct_size)->~A();
 
-        new (_data) A {value};
-        new (_data + ct_size) A {value};
+        new (_data) A {efp::move(value)};
+        new (_data + ct_size) A {efp::move(copied)};
 
         ++_data;
         _data -= ct_size * (_data == _buffer + ct_capacity);
@@ -186,18 +193,9 @@ class Vcq {
         _write = _buffer;
     }
 
-    Vcq(const Vcq& other) {
-        const auto read_offset = other._read - other._buffer;
-        for (size_t i = 0; i < other._size; ++i) {
-            const auto j =
-                read_offset + i < ct_capacity ? read_offset + i : read_offset + i - ct_capacity;
-            new (_buffer + j) A(other._read[i]);
-            new (_buffer + ct_capacity + j) A(other._read[i]);
-        }
-
-        _size = other._size;
-        _read = _buffer + (other._read - other._buffer);
-        _write = _buffer + (other._write - other._buffer);
+    // Delegates, so that the elements made so far are destroyed if the copy of the next one fails
+    Vcq(const Vcq& other) : Vcq() {
+        _copy_from(other);
     }
 
     Vcq& operator=(const Vcq& other) {
@@ -213,18 +211,8 @@ class Vcq {
             (_buffer + ct_capacity + j)->~A();
         }
 
-        const auto read_offset_other = other._read - other._buffer;
-        for (size_t i = 0; i < other._size; ++i) {
-            const auto j = read_offset_other + i < ct_capacity
-                ? read_offset_other + i
-                : read_offset_other + i - ct_capacity;
-            new (_buffer + j) A(other._read[i]);
-            new (_buffer + ct_capacity + j) A(other._read[i]);
-        }
-
-        _size = other._size;
-        _read = _buffer + (other._read - other._buffer);
-        _write = _buffer + (other._write - other._buffer);
+        _size = 0;
+        _copy_from(other);
         return *this;
     }
 
@@ -290,13 +278,15 @@ class Vcq {
     }
 
     void push_back(A value) {
+        A copied {value};  // Copy first, as it may fail
+
         if (_size == ct_capacity) {  // Has to destroy the oldest element if the buffer is full
             _write->~A();
             (_write + ct_capacity)->~A();
         }
 
-        new (_write) A {value};
-        new (_write + ct_capacity) A {value};
+        new (_write) A {efp::move(value)};
+        new (_write + ct_capacity) A {efp::move(copied)};
 
         ++_write;
         _write -= ct_capacity * (_write == _buffer + ct_capacity);
@@ -357,6 +347,16 @@ class Vcq {
     }
 
   private:
+    // Only for an empty queue. The elements take the positions they have in the other
+    void _copy_from(const Vcq& other) {
+        _read = _buffer + (other._read - other._buffer);
+        _write = _read;
+
+        for (size_t i = 0; i < other._size; ++i) {
+            push_back(other._read[i]);
+        }
+    }
+
     RawStorage<A, 2 * ct_capacity> _buffer;
 
     size_t _size = 0;
-- 
2.43.0


From 654a6cdde7d50e62cc1ceced17774c2dc2b57942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:05 +0000
Subject: [PATCH 83/84] fix: an ArrVecView could be longer than its static
 capacity

---
 include/efp/sequence.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index 80929f8..6342619 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -1226,6 +1226,12 @@ public:
                 "ArrVecView::ArrVecView: data must not be nullptr for a non-empty view"
             );
         }
+
+        if (size > ct_capacity) {
+            throw RuntimeError(
+                "ArrVecView::ArrVecView: size must be less than or equal to ct_capacity"
+            );
+        }
     }
 
     ArrVecView(const ArrVecView& other) : _data(other._data), _size(other._size) {}
@@ -1240,7 +1246,9 @@ public:
 
     // Constructor from ArrayView
     template<size_t ct_size_>
-    ArrVecView(const ArrayView<Element, ct_size_>& as) : _data(as.data()), _size(length(as)) {}
+    ArrVecView(const ArrayView<Element, ct_size_>& as) : _data(as.data()), _size(length(as)) {
+        static_assert(ct_size_ <= ct_capacity, "ct_size_ must be less than or equal to ct_capacity");
+    }
 
     const Element& operator[](size_t index) {
         return _data[index];
-- 
2.43.0


From 709796b800cff5e4ef3800416b0ece0e27960927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:11 +0000
Subject: [PATCH 84/84] fix: a Vector of elements that can only be copied
 survives a copy that throws while it grows or inserts

---
 include/efp/sequence.hpp | 46 +++++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index 6342619..38d1dd3 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -749,14 +749,7 @@ namespace detail {
                 // Element* new_data = _allocator.allocate(new_capacity);
                 Element* new_data = AllocatorTraits<Allocator>::allocate(_allocator, new_capacity);
 
-                for (size_t i = 0; i < _size; ++i) {
-                    // _allocator.construct(new_data + i, efp::move(_data[i]));
-                    AllocatorTraits<Allocator>::construct(
-                        _allocator,
-                        new_data + i,
-                        efp::move(_data[i])
-                    );
-                }
+                _move_to(new_data, new_capacity);
 
                 for (size_t i = 0; i < _size; ++i) {
                     // _allocator.destroy(_data + i);
@@ -779,14 +772,7 @@ namespace detail {
                 Element* new_data = _allocator.allocate(_size + 1);
 
                 // Move existing elements to the new storage
-                for (size_t i = 0; i < _size; ++i) {
-                    // _allocator.construct(new_data + i, efp::move(_data[i]));
-                    AllocatorTraits<Allocator>::construct(
-                        _allocator,
-                        new_data + i,
-                        efp::move(_data[i])
-                    );
-                }
+                _move_to(new_data, _size + 1);
 
                 // Destroy and deallocate old storage
                 for (size_t i = 0; i < _size; ++i) {
@@ -876,21 +862,21 @@ namespace detail {
 
             if (index == _size) {
                 AllocatorTraits<Allocator>::construct(_allocator, _data + index, efp::move(copied));
+                ++_size;
             } else {
                 AllocatorTraits<Allocator>::construct(
                     _allocator,
                     _data + _size,
                     efp::move(_data[_size - 1])
                 );
+                ++_size;
 
-                for (size_t i = _size - 1; i > index; --i) {
+                for (size_t i = _size - 2; i > index; --i) {
                     _data[i] = efp::move(_data[i - 1]);
                 }
 
                 _data[index] = efp::move(copied);
             }
-
-            ++_size;
         }
 
         void erase(size_t index) {
@@ -945,6 +931,28 @@ namespace detail {
         }
 
     protected:
+        // The new storage is given back if it fails, as it may for elements which can only be copied
+        void _move_to(Element* new_data, size_t new_capacity) {
+            size_t moved = 0;
+
+            try {
+                for (; moved < _size; ++moved) {
+                    // _allocator.construct(new_data + moved, efp::move(_data[moved]));
+                    AllocatorTraits<Allocator>::construct(
+                        _allocator,
+                        new_data + moved,
+                        efp::move(_data[moved])
+                    );
+                }
+            } catch (...) {
+                for (size_t i = 0; i < moved; ++i) {
+                    AllocatorTraits<Allocator>::destroy(_allocator, new_data + i);
+                }
+                AllocatorTraits<Allocator>::deallocate(_allocator, new_data, new_capacity);
+                throw;
+            }
+        }
+
         // For constructors, whose destructor would not run if the copy of an element failed
         void _construct_from(const Element* source, size_t length) {
             _data = AllocatorTraits<Allocator>::allocate(_allocator, _capacity);
-- 
2.43.0

