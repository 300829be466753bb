From c2e7e1c9b1ff3154275fc92255d0e00329c10240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:08 +0000
Subject: [PATCH 01/93] fix: make the free swap of Xsmp::String usable

It took its operands by const reference and could not be instantiated.
---
 include/Xsmp/String.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Xsmp/String.h b/include/Xsmp/String.h
index 2f3397a..97c20a0 100644
--- a/include/Xsmp/String.h
+++ b/include/Xsmp/String.h
@@ -490,9 +490,9 @@ private:
   }
 };
 
-template <std::size_t Nm, std::size_t Nm2>
-constexpr void swap(const String<Nm> &lhs, const String<Nm2> &rhs) noexcept {
-  rhs.swap(lhs);
+template <std::size_t Nm>
+constexpr void swap(String<Nm> &lhs, String<Nm> &rhs) noexcept {
+  lhs.swap(rhs);
 }
 
 template <std::size_t Nm>
-- 
2.43.0


From 92a04f11813211e47d66e5e43a223c9cf429fc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:08 +0000
Subject: [PATCH 02/93] fix: allow assigning a part of an Xsmp::String to
 itself

The source and the target of the copy may overlap.
---
 include/Xsmp/String.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Xsmp/String.h b/include/Xsmp/String.h
index 97c20a0..2950a7f 100644
--- a/include/Xsmp/String.h
+++ b/include/Xsmp/String.h
@@ -319,7 +319,8 @@ template <std::size_t Nm> struct String {
   }
   constexpr String &assign(std::string_view str) {
     const size_t length = std::min(str.length(), Nm);
-    traits_type::copy(internalString, str.data(), length);
+    // str may be a part of this string
+    traits_type::move(internalString, str.data(), length);
     internalString[length] = '\0';
     return *this;
   }
-- 
2.43.0


From ef6de575ede64cdc0d3e06190fa6951154ca441a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:08 +0000
Subject: [PATCH 03/93] fix: removing a prefix longer than an Xsmp::String
 empties it

It wrote out of bounds; remove_suffix already limits the length.
---
 include/Xsmp/String.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Xsmp/String.h b/include/Xsmp/String.h
index 2950a7f..1b05296 100644
--- a/include/Xsmp/String.h
+++ b/include/Xsmp/String.h
@@ -168,6 +168,7 @@ template <std::size_t Nm> struct String {
 
   constexpr void remove_prefix(size_t length) {
     auto newLength = this->length();
+    length = std::min(length, newLength);
     std::copy(internalString + length, internalString + newLength,
               internalString);
     newLength -= length;
-- 
2.43.0


From 0cc06db68f5be58768f90a92fe4279de4eaa7696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:14 +0000
Subject: [PATCH 04/93] fix: copying a moved-from cstring no longer
 dereferences null

---
 src/Xsmp/cstring.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/cstring.cpp b/src/Xsmp/cstring.cpp
index d882fda..f5ec5c2 100644
--- a/src/Xsmp/cstring.cpp
+++ b/src/Xsmp/cstring.cpp
@@ -26,7 +26,8 @@ const char *copy(const char *value, std::size_t size) {
   return copy;
 }
 const char *copy(const char *value) {
-  return copy(value, std::char_traits<char>::length(value));
+  // the value of a moved-from cstring is null
+  return value ? copy(value, std::char_traits<char>::length(value)) : nullptr;
 }
 } // namespace
 
@@ -39,7 +40,7 @@ cstring::cstring(const char *value)
 cstring::cstring(std::string_view value)
     : _value{copy(value.data(), value.size())} {}
 
-cstring::cstring(const cstring &other) : cstring(other.c_str()) {}
+cstring::cstring(const cstring &other) : _value{copy(other.c_str())} {}
 
 cstring &cstring::operator=(const cstring &other) {
   if (this != &other) {
-- 
2.43.0


From 09e7ba23539ecab2525835d5af0be41f642fa7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:14 +0000
Subject: [PATCH 05/93] fix: assign a cstring before releasing its content

The assigned text may be a part of the current content, and a failed
allocation left a dangling pointer.
---
 src/Xsmp/cstring.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/cstring.cpp b/src/Xsmp/cstring.cpp
index f5ec5c2..1a15f51 100644
--- a/src/Xsmp/cstring.cpp
+++ b/src/Xsmp/cstring.cpp
@@ -44,15 +44,18 @@ cstring::cstring(const cstring &other) : _value{copy(other.c_str())} {}
 
 cstring &cstring::operator=(const cstring &other) {
   if (this != &other) {
+    const auto *value = copy(other.c_str());
     delete[] _value;
-    _value = copy(other.c_str());
+    _value = value;
   }
   return *this;
 }
 
 cstring &cstring::operator=(const char *value) {
+  // value may be a part of the current content
+  const auto *newValue = copy(value);
   delete[] _value;
-  _value = copy(value);
+  _value = newValue;
   return *this;
 }
 
-- 
2.43.0


From 8e34d982436091b2b865e711084c88d0b95fd3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:14 +0000
Subject: [PATCH 06/93] fix: keep the content of a cstring moved to itself

---
 src/Xsmp/cstring.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Xsmp/cstring.cpp b/src/Xsmp/cstring.cpp
index 1a15f51..87e02f7 100644
--- a/src/Xsmp/cstring.cpp
+++ b/src/Xsmp/cstring.cpp
@@ -65,9 +65,11 @@ cstring::cstring(cstring &&other) noexcept : _value{other._value} {
   other._value = nullptr;
 }
 cstring &cstring::operator=(cstring &&other) noexcept {
-  delete[] _value;
-  _value = other._value;
-  other._value = nullptr;
+  if (this != &other) {
+    delete[] _value;
+    _value = other._value;
+    other._value = nullptr;
+  }
   return *this;
 }
 } // namespace Xsmp
-- 
2.43.0


From 8d7a72500534e3d1353991ed59a669a27814e812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:31 +0000
Subject: [PATCH 07/93] fix: avoid undefined conversions of large integers to
 floats

The largest integers round up to a float that is out of their range;
converting it back was undefined.
---
 src/Smp/AnySimple.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/Smp/AnySimple.cpp b/src/Smp/AnySimple.cpp
index c19afe7..f0431e2 100644
--- a/src/Smp/AnySimple.cpp
+++ b/src/Smp/AnySimple.cpp
@@ -20,6 +20,7 @@
 #include <cmath>
 #include <limits>
 #include <string>
+#include <type_traits>
 
 namespace Smp {
 
@@ -100,11 +101,20 @@ template <typename T, typename U>
 T convertFloat(U newValue, ::Smp::PrimitiveTypeKind kind,
                ::Smp::PrimitiveTypeKind expected) {
 
-  if (std::fabs(newValue - static_cast<U>(static_cast<T>(newValue))) >
-      std::numeric_limits<U>::epsilon()) {
+  const auto converted = static_cast<T>(newValue);
+  bool exact;
+  if constexpr (std::is_integral_v<U>) {
+    // the largest values may be rounded up out of the range of U
+    exact = converted < std::ldexp(T{1}, std::numeric_limits<U>::digits) &&
+            static_cast<U>(converted) == newValue;
+  } else {
+    exact = !(std::fabs(newValue - static_cast<U>(converted)) >
+              std::numeric_limits<U>::epsilon());
+  }
+  if (!exact) {
     ::Xsmp::Exception::throwInvalidAnyType(nullptr, expected, kind);
   }
-  return static_cast<T>(newValue);
+  return converted;
 }
 
 void AnySimple::SetValue(::Smp::PrimitiveTypeKind kind, ::Smp::Bool newValue) {
-- 
2.43.0


From 99cf3754e8df238d12e4e463c2d9aea38ff67afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:31 +0000
Subject: [PATCH 08/93] fix: keep the content of an AnySimple moved to itself

---
 src/Smp/AnySimple.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/Smp/AnySimple.cpp b/src/Smp/AnySimple.cpp
index f0431e2..7a8a88f 100644
--- a/src/Smp/AnySimple.cpp
+++ b/src/Smp/AnySimple.cpp
@@ -75,13 +75,15 @@ AnySimple &AnySimple::operator=(const ::Smp::AnySimple &other) {
 
 AnySimple &AnySimple::operator=(::Smp::AnySimple &&other) {
 
-  _releaseContent(this);
+  if (this != &other) {
+    _releaseContent(this);
 
-  type = other.type;
-  value = other.value;
+    type = other.type;
+    value = other.value;
 
-  other.type = PrimitiveTypeKind::PTK_None;
-  other.value.string8Value = nullptr;
+    other.type = PrimitiveTypeKind::PTK_None;
+    other.value.string8Value = nullptr;
+  }
 
   return *this;
 }
-- 
2.43.0


From eb8bad8e9b3a203ce1e12af7535f1cf2c1103d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:31 +0000
Subject: [PATCH 09/93] fix: copy a string into an AnySimple before releasing
 its content

---
 src/Smp/AnySimple.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Smp/AnySimple.cpp b/src/Smp/AnySimple.cpp
index 7a8a88f..ccf2548 100644
--- a/src/Smp/AnySimple.cpp
+++ b/src/Smp/AnySimple.cpp
@@ -148,19 +148,19 @@ void AnySimple::SetValue(::Smp::PrimitiveTypeKind kind, ::Smp::Char8 newValue) {
 void AnySimple::SetValue(::Smp::PrimitiveTypeKind kind,
                          ::Smp::String8 newValue) {
 
-  _releaseContent(this);
-
   if (kind == PrimitiveTypeKind::PTK_String8) {
+    // newValue may be a part of the current content
+    ::Smp::Char8 *dest = nullptr;
     if (newValue) {
       auto size = std::char_traits<char>::length(newValue) + 1;
-      auto *dest = new ::Smp::Char8[size];
-      this->value.string8Value = dest;
+      dest = new ::Smp::Char8[size];
       std::char_traits<char>::copy(dest, newValue, size);
-    } else {
-      this->value.string8Value = nullptr;
     }
+    _releaseContent(this);
+    this->value.string8Value = dest;
     type = kind;
   } else {
+    _releaseContent(this);
 
     ::Xsmp::Exception::throwInvalidAnyType(nullptr, kind,
                                            PrimitiveTypeKind::PTK_String8);
-- 
2.43.0


From defed87c248d60bfa8d698cfba07e62b9b1da9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:51 +0000
Subject: [PATCH 10/93] fix: an empty AnySimple only equals another empty one

The comparison was true against any value, but false the other way.
---
 src/Smp/AnySimple.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Smp/AnySimple.cpp b/src/Smp/AnySimple.cpp
index ccf2548..df57024 100644
--- a/src/Smp/AnySimple.cpp
+++ b/src/Smp/AnySimple.cpp
@@ -1056,7 +1056,7 @@ bool ::Smp::AnySimple::operator==(const ::Smp::AnySimple & other) const {
   try {
     switch (type) {
     case PrimitiveTypeKind::PTK_None:
-      return true;
+      return other.type == PrimitiveTypeKind::PTK_None;
     case PrimitiveTypeKind::PTK_Bool:
       return value.boolValue == static_cast<::Smp::Bool>(other);
     case PrimitiveTypeKind::PTK_UInt8:
-- 
2.43.0


From e73f38a05dcfcdf649a40572a2a64e7065fa2f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:51 +0000
Subject: [PATCH 11/93] fix: a text that is no duration no longer gives an
 indeterminate value

---
 src/Xsmp/Duration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Xsmp/Duration.cpp b/src/Xsmp/Duration.cpp
index c3d1a82..2ae859b 100644
--- a/src/Xsmp/Duration.cpp
+++ b/src/Xsmp/Duration.cpp
@@ -30,7 +30,7 @@ static_assert(std::is_standard_layout_v<::Xsmp::Duration>,
 
 namespace {
 ::Smp::Duration from(std::istream &inputStream, const char *fmt) {
-  std::chrono::nanoseconds timePoint;
+  std::chrono::nanoseconds timePoint{};
   inputStream >> date::parse(fmt, timePoint);
   return timePoint.count();
 }
-- 
2.43.0


From a7f72fff37e537d51af808c1e7dac542b062d18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:43 +0000
Subject: [PATCH 12/93] fix: make the assignment of a chrono duration to a
 DateTime usable

---
 include/Xsmp/DateTime.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Xsmp/DateTime.h b/include/Xsmp/DateTime.h
index 78a4d43..66ef677 100644
--- a/include/Xsmp/DateTime.h
+++ b/include/Xsmp/DateTime.h
@@ -121,7 +121,8 @@ struct DateTime final {
   template <class Rep, class Period>
   constexpr DateTime &
   operator=(const std::chrono::duration<Rep, Period> &dateTime) {
-    _value = convert(dateTime);
+    _value =
+        std::chrono::duration_cast<std::chrono::nanoseconds>(dateTime).count();
     return *this;
   }
   constexpr DateTime &operator=(Smp::DateTime dateTime) {
-- 
2.43.0


From 1a0d0d01571f3280cd7148e68b5015ae1dfe0917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:43 +0000
Subject: [PATCH 13/93] fix: infinite AnySimple values equal themselves

---
 src/Smp/AnySimple.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/Smp/AnySimple.cpp b/src/Smp/AnySimple.cpp
index df57024..1b3605e 100644
--- a/src/Smp/AnySimple.cpp
+++ b/src/Smp/AnySimple.cpp
@@ -1080,13 +1080,17 @@ bool ::Smp::AnySimple::operator==(const ::Smp::AnySimple & other) const {
     case PrimitiveTypeKind::PTK_DateTime:
       return value.dateTimeValue == static_cast<::Smp::DateTime>(other);
     case PrimitiveTypeKind::PTK_Float32:
-      return std::fabs(value.float32Value -
+      // the difference of equal infinities is not a number
+      return value.float32Value == static_cast<::Smp::Float32>(other) ||
+             std::fabs(value.float32Value -
                        static_cast<::Smp::Float32>(other)) <=
-             std::numeric_limits<Float32>::epsilon();
+                 std::numeric_limits<Float32>::epsilon();
     case PrimitiveTypeKind::PTK_Float64:
-      return std::fabs(value.float64Value -
+      // the difference of equal infinities is not a number
+      return value.float64Value == static_cast<::Smp::Float64>(other) ||
+             std::fabs(value.float64Value -
                        static_cast<::Smp::Float64>(other)) <=
-             std::numeric_limits<Float64>::epsilon();
+                 std::numeric_limits<Float64>::epsilon();
     case PrimitiveTypeKind::PTK_Char8:
       return value.char8Value == static_cast<::Smp::Char8>(other);
     case PrimitiveTypeKind::PTK_String8:
-- 
2.43.0


From 411ee9de28cb4fe1799d60af5560f3a9cc8da4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:43 +0000
Subject: [PATCH 14/93] fix: define the declared throwInvalidArrayIndex of an
 object

---
 src/Xsmp/Exception.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Xsmp/Exception.cpp b/src/Xsmp/Exception.cpp
index 21dded2..3b4167c 100644
--- a/src/Xsmp/Exception.cpp
+++ b/src/Xsmp/Exception.cpp
@@ -1491,6 +1491,13 @@ void throwInvalidArrayIndex(const ::Smp::ISimpleArrayField *sender,
                           static_cast<::Smp::Int64>(invalidIndex));
 }
 
+void throwInvalidArrayIndex(const ::Smp::IObject *sender,
+                            ::Smp::UInt64 arraySize,
+                            ::Smp::UInt64 invalidIndex) {
+  throw InvalidArrayIndex(sender, static_cast<::Smp::Int64>(arraySize),
+                          static_cast<::Smp::Int64>(invalidIndex));
+}
+
 void throwInvalidFieldValue(const ::Smp::IField *sender,
                             const ::Smp::AnySimple &invalidFieldValue) {
   throw InvalidFieldValue(sender, invalidFieldValue);
-- 
2.43.0


From dbc65869c4ecb48c29d839a5afa24be4a5fa3502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:58 +0000
Subject: [PATCH 15/93] fix: adding a component to a container of a published
 component no longer throws

---
 src/Xsmp/Container.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Xsmp/Container.cpp b/src/Xsmp/Container.cpp
index 51c9a11..f5b8986 100644
--- a/src/Xsmp/Container.cpp
+++ b/src/Xsmp/Container.cpp
@@ -107,7 +107,7 @@ inline void CheckComposite(::Smp::IContainer const *container,
 
 inline void CheckComponent(::Smp::IContainer const *container,
                            ::Smp::IComponent const *cmp, ::Smp::String8 name) {
-  if (cmp->GetField(name)) {
+  if (auto const *fields = cmp->GetFields(); fields && fields->at(name)) {
     ::Xsmp::Exception::throwDuplicateName(container, name,
                                           container->GetComponents());
   }
-- 
2.43.0


From dc91990e3ee24d9ea682d5866a4cd8b8d821dc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:58 +0000
Subject: [PATCH 16/93] fix: run DoConfigure once per Configure

---
 include/Xsmp/ComponentHelper.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/Xsmp/ComponentHelper.h b/include/Xsmp/ComponentHelper.h
index 76538a2..60f15d9 100644
--- a/include/Xsmp/ComponentHelper.h
+++ b/include/Xsmp/ComponentHelper.h
@@ -50,7 +50,6 @@ public:
                         ::Smp::Services::ILinkRegistry *linkRegistry) {
     static_assert(std::is_base_of_v<U, T>);
     if constexpr (hasDoConfigure<T>::value) {
-      static_cast<T *>(cmp)->DoConfigure(logger, linkRegistry);
 
       if constexpr (std::is_invocable_v<decltype(&T::DoConfigure), T *,
                                         ::Smp::Services::ILogger *,
-- 
2.43.0


From f496ae3e2f4615847d8a3ca01c56c4f9a8ac7376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:58 +0000
Subject: [PATCH 17/93] fix: accept a DoPublish without parameter

---
 include/Xsmp/ComponentHelper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Xsmp/ComponentHelper.h b/include/Xsmp/ComponentHelper.h
index 60f15d9..3198498 100644
--- a/include/Xsmp/ComponentHelper.h
+++ b/include/Xsmp/ComponentHelper.h
@@ -40,7 +40,7 @@ public:
       }
       static_assert(std::is_invocable_v<decltype(&T::DoPublish), T *,
                                         ::Smp::IPublication *> ||
-                        std::is_invocable_v<decltype(&T::DoConnect), T *>,
+                        std::is_invocable_v<decltype(&T::DoPublish), T *>,
                     "DoPublish has an invalid signature. Expecting 'void "
                     "DoPublish(Smp::IPublication*)' or 'void DoPublish()'.");
     }
-- 
2.43.0


From cf613a706623f5ebf132a5cb122fdd5f205fc993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:58 +0000
Subject: [PATCH 18/93] fix: event sinks may be subscribed or unsubscribed
 while an event is emitted

---
 src/Xsmp/EventSource.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/EventSource.cpp b/src/Xsmp/EventSource.cpp
index 7124dad..bae48e2 100644
--- a/src/Xsmp/EventSource.cpp
+++ b/src/Xsmp/EventSource.cpp
@@ -79,8 +79,12 @@ void AbstractEventSource::RemoveLinks(
 }
 void AbstractEventSource::DoEmit(::Smp::IObject *sender,
                                  const ::Smp::AnySimple &value) const {
-  for (const auto &sink : _event_sinks) {
-    sink->Notify(sender, value);
+  // a handler may change the subscriptions
+  const auto sinks = _event_sinks;
+  for (auto *sink : sinks) {
+    if (_event_sinks.find(sink) != _event_sinks.end()) {
+      sink->Notify(sender, value);
+    }
   }
 }
 
-- 
2.43.0


From d864b8fca4a9ab1e4a3b78cc809c9c6e5274ab0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:58 +0000
Subject: [PATCH 19/93] fix: report the expected and the invalid type of an
 event argument in that order

---
 src/Xsmp/EventSink.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/EventSink.cpp b/src/Xsmp/EventSink.cpp
index 7145388..fe0ac84 100644
--- a/src/Xsmp/EventSink.cpp
+++ b/src/Xsmp/EventSink.cpp
@@ -59,8 +59,8 @@ EventSink<void>::EventSink(::Smp::String8 name, ::Smp::String8 description,
 
 void EventSink<void>::Notify(::Smp::IObject *sender, ::Smp::AnySimple value) {
   if (value.GetType() != GetEventArgType()) {
-    ::Xsmp::Exception::throwInvalidAnyType(nullptr, value.GetType(),
-                                           GetEventArgType());
+    ::Xsmp::Exception::throwInvalidAnyType(nullptr, GetEventArgType(),
+                                           value.GetType());
   }
   _callback(sender);
 }
-- 
2.43.0


From 6ca513d481e1d0b732fcf5d0895cc1805d4cad20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:58 +0000
Subject: [PATCH 20/93] fix: resolving from a field or with a null path

---
 src/Xsmp/Helper.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Xsmp/Helper.cpp b/src/Xsmp/Helper.cpp
index dc323b5..ddd3a76 100644
--- a/src/Xsmp/Helper.cpp
+++ b/src/Xsmp/Helper.cpp
@@ -380,9 +380,12 @@ std::string GetPath(const ::Smp::IObject *obj) {
 
 ::Smp::IObject *Resolve(::Smp::IObject *parent, ::Smp::String8 path) {
 
-  if (path[0] == '\0' || !parent) {
+  if (!parent || !path || path[0] == '\0') {
     return parent;
   }
+  if (auto *field = dynamic_cast<::Smp::IField *>(parent)) {
+    return Resolve(field, path);
+  }
   ::Smp::Char8 separator = '\0';
   auto segment = GetNextSegment(&path, &separator);
 
-- 
2.43.0


From 289a7d9d66b7d2057ec6d5e57703c898c85d3d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:58 +0000
Subject: [PATCH 21/93] fix: removing the links of connected fields no longer
 skips or invalidates

---
 src/Xsmp/Component.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Component.cpp b/src/Xsmp/Component.cpp
index 5957815..28b054f 100644
--- a/src/Xsmp/Component.cpp
+++ b/src/Xsmp/Component.cpp
@@ -156,8 +156,10 @@ void Component::RemoveFieldLinks(::Smp::IField *field,
   if (auto *dataflowField =
           dynamic_cast<::Xsmp::detail::IDataflowFieldExtension *>(field)) {
     if (const auto *inputFields = dataflowField->GetInputFields()) {
-      for (const auto *inputField : *inputFields) {
-        if (::Xsmp::Helper::IsAncestor(target, inputField)) {
+      // backwards, as disconnecting removes the input field from the collection
+      for (auto i = inputFields->size(); i > 0; --i) {
+        if (const auto *inputField = inputFields->at(i - 1);
+            ::Xsmp::Helper::IsAncestor(target, inputField)) {
           dataflowField->Disconnect(inputField);
         }
       }
-- 
2.43.0


From b30c174786e210d13e3d18a380aa96dff81e75fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:58 +0000
Subject: [PATCH 22/93] fix: the type name of a null object

---
 src/Xsmp/Helper.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Xsmp/Helper.cpp b/src/Xsmp/Helper.cpp
index ddd3a76..da71170 100644
--- a/src/Xsmp/Helper.cpp
+++ b/src/Xsmp/Helper.cpp
@@ -450,6 +450,9 @@ std::string demangle(::Smp::String8 name) {
 #endif
 }
 std::string TypeName(const ::Smp::IObject *object) {
+  if (!object) {
+    return "<null>";
+  }
   return demangle(typeid(*object).name());
 }
 
-- 
2.43.0


From a40b1daa8bfeb3bcbde9ce4e4da4653569b37c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:18 +0000
Subject: [PATCH 23/93] fix: report that a property setter has one parameter

---
 src/Xsmp/Publication/Property.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Publication/Property.cpp b/src/Xsmp/Publication/Property.cpp
index e0493d5..280687d 100644
--- a/src/Xsmp/Publication/Property.cpp
+++ b/src/Xsmp/Publication/Property.cpp
@@ -102,7 +102,7 @@ public:
 
   void SetParameterValue(::Smp::Int32 index, ::Smp::AnySimple value) override {
     if (index != 0) {
-      ::Xsmp::Exception::throwInvalidParameterIndex(_property, index, 0);
+      ::Xsmp::Exception::throwInvalidParameterIndex(_property, index, 1);
     }
     if (!::Xsmp::Publication::Request::isValid(_property, _property->GetType(),
                                                value)) {
@@ -115,7 +115,7 @@ public:
   [[nodiscard]] ::Smp::AnySimple
   GetParameterValue(::Smp::Int32 index) const override {
     if (index != 0) {
-      ::Xsmp::Exception::throwInvalidParameterIndex(_property, index, 0);
+      ::Xsmp::Exception::throwInvalidParameterIndex(_property, index, 1);
     }
     return _value;
   }
-- 
2.43.0


From a3e1e6d7a61c7e9e5d3666563198e11fd029be97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:19 +0000
Subject: [PATCH 24/93] fix: null parameter and field names

---
 src/Xsmp/Field.cpp                 | 3 +++
 src/Xsmp/Publication/Operation.cpp | 5 +++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Field.cpp b/src/Xsmp/Field.cpp
index adc3c47..fec8690 100644
--- a/src/Xsmp/Field.cpp
+++ b/src/Xsmp/Field.cpp
@@ -416,6 +416,9 @@ const ::Smp::FieldCollection *SimpleArrayDataflowField::GetInputFields() const {
 }
 
 ::Smp::IField *InputFieldCollection::at(::Smp::String8 name) const {
+  if (!name) {
+    return nullptr;
+  }
   std::string_view svName = name;
   auto it = std::find_if(_fields.begin(), _fields.end(),
                          [&svName](const Smp::IField *element) {
diff --git a/src/Xsmp/Publication/Operation.cpp b/src/Xsmp/Publication/Operation.cpp
index ff5cdd4..e45de14 100644
--- a/src/Xsmp/Publication/Operation.cpp
+++ b/src/Xsmp/Publication/Operation.cpp
@@ -96,7 +96,7 @@ void Operation::PublishParameter(
         std::make_unique<Parameter>(name, description, this, type, direction);
   } else {
     // check do duplicate parameter name
-    if (_returnParameter &&
+    if (_returnParameter && name &&
         std::strcmp(_returnParameter->GetName(), name) == 0) {
       ::Xsmp::Exception::throwDuplicateName(this, name, &_parameters);
     }
@@ -113,7 +113,8 @@ const ::Smp::ParameterCollection *Operation::GetParameters() const {
   if (auto *parameter = _parameters.at(name)) {
     return parameter;
   }
-  if (_returnParameter && std::strcmp(_returnParameter->GetName(), name) == 0) {
+  if (_returnParameter && name &&
+      std::strcmp(_returnParameter->GetName(), name) == 0) {
     return _returnParameter.get();
   }
   return nullptr;
-- 
2.43.0


From 6d755c5ad98bc6f0dcd3f51182a9c18d237c502e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:02 +0000
Subject: [PATCH 25/93] fix: run DoDisconnect only in a connected component

---
 include/Xsmp/ComponentHelper.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/Xsmp/ComponentHelper.h b/include/Xsmp/ComponentHelper.h
index 3198498..7548541 100644
--- a/include/Xsmp/ComponentHelper.h
+++ b/include/Xsmp/ComponentHelper.h
@@ -20,6 +20,7 @@
 #include <Smp/Services/ILinkRegistry.h>
 #include <Smp/Services/ILogger.h>
 #include <Xsmp/Component.h>
+#include <Xsmp/Exception.h>
 #include <type_traits>
 
 /// XSMP standard types and interfaces.
@@ -104,6 +105,10 @@ public:
   template <typename T, typename U> static void Disconnect(U *cmp) {
     static_assert(std::is_base_of_v<U, T>);
     if constexpr (hasDoDisconnect<T>::value) {
+      if (cmp->GetState() != ::Smp::ComponentStateKind::CSK_Connected) {
+        ::Xsmp::Exception::throwInvalidComponentState(
+            cmp, cmp->GetState(), ::Smp::ComponentStateKind::CSK_Connected);
+      }
       if constexpr (std::is_invocable_v<decltype(&T::DoDisconnect), T *>) {
         static_cast<T *>(cmp)->DoDisconnect();
       }
-- 
2.43.0


From 02d2d4804bfee082900ea82b4cb08c1ef9e3ee61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:05 +0000
Subject: [PATCH 26/93] fix: make published array items children of their array

---
 src/Xsmp/Publication/Field.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Xsmp/Publication/Field.cpp b/src/Xsmp/Publication/Field.cpp
index 5a42353..33fc579 100644
--- a/src/Xsmp/Publication/Field.cpp
+++ b/src/Xsmp/Publication/Field.cpp
@@ -205,7 +205,7 @@ AnonymousArrayField::AnonymousArrayField(
     ::Smp::Publication::ITypeRegistry *typeRegistry, ::Smp::ViewKind view,
     ::Smp::Bool state)
     : Field(name, description, parent, view, state),
-      ::Xsmp::Publication::Publication(parent, typeRegistry) {}
+      ::Xsmp::Publication::Publication(this, typeRegistry) {}
 
 void AnonymousArrayField::Restore(::Smp::IStorageReader *reader) {
   if (IsState()) {
-- 
2.43.0


From 9805dd64036378c5934792b98551b9594c9aa1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:54 +0000
Subject: [PATCH 27/93] fix: check the literals of published enumerations of
 every size and of enumeration items

---
 src/Xsmp/Publication/Field.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Xsmp/Publication/Field.cpp b/src/Xsmp/Publication/Field.cpp
index 33fc579..09b41ef 100644
--- a/src/Xsmp/Publication/Field.cpp
+++ b/src/Xsmp/Publication/Field.cpp
@@ -548,6 +548,9 @@ void SimpleArrayField::SetValue(::Smp::UInt64 index, ::Smp::AnySimple value) {
   if (index >= GetSize()) {
     ::Xsmp::Exception::throwInvalidArrayIndex(this, index);
   }
+  if (isInvalidEnumerationValue(_itemType, value)) {
+    ::Xsmp::Exception::throwInvalidArrayValue(this, index, value);
+  }
   void *address = static_cast<char *>(GetAddress()) + index * _itemSize;
 
   switch (_itemType->GetPrimitiveTypeKind()) {
@@ -564,9 +567,6 @@ void SimpleArrayField::SetValue(::Smp::UInt64 index, ::Smp::AnySimple value) {
     *static_cast<::Smp::Int16 *>(address) = value;
     break;
   case ::Smp::PrimitiveTypeKind::PTK_Int32:
-    if (isInvalidEnumerationValue(GetType(), value)) {
-      ::Xsmp::Exception::throwInvalidArrayValue(this, index, value);
-    }
     *static_cast<::Smp::Int32 *>(address) = value;
     break;
   case ::Smp::PrimitiveTypeKind::PTK_Duration:
@@ -742,6 +742,9 @@ void SimpleField::Store(::Smp::IStorageWriter *writer) {
 }
 
 void SimpleField::SetValue(::Smp::AnySimple value) {
+  if (isInvalidEnumerationValue(GetType(), value)) {
+    ::Xsmp::Exception::throwInvalidFieldValue(this, value);
+  }
   auto kind = GetPrimitiveTypeKind();
   switch (kind) {
   case ::Smp::PrimitiveTypeKind::PTK_Bool:
@@ -757,9 +760,6 @@ void SimpleField::SetValue(::Smp::AnySimple value) {
     *static_cast<::Smp::Int16 *>(GetAddress()) = value;
     break;
   case ::Smp::PrimitiveTypeKind::PTK_Int32:
-    if (isInvalidEnumerationValue(GetType(), value)) {
-      ::Xsmp::Exception::throwInvalidFieldValue(this, value);
-    }
     *static_cast<::Smp::Int32 *>(GetAddress()) = value;
     break;
   case ::Smp::PrimitiveTypeKind::PTK_Duration:
-- 
2.43.0


From 268d5752e42d6ac633d58a3eb386fcb27c4f689d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:54 +0000
Subject: [PATCH 28/93] fix: name the element in the error of an array write
 with a value that does not convert

---
 src/Xsmp/Publication/Field.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Xsmp/Publication/Field.cpp b/src/Xsmp/Publication/Field.cpp
index 09b41ef..165e453 100644
--- a/src/Xsmp/Publication/Field.cpp
+++ b/src/Xsmp/Publication/Field.cpp
@@ -17,6 +17,7 @@
 #include <Smp/Exception.h>
 #include <Smp/IField.h>
 #include <Smp/ISimpleField.h>
+#include <Smp/InvalidAnyType.h>
 #include <Smp/IStructureField.h>
 #include <Smp/PrimitiveTypes.h>
 #include <Smp/Publication/IType.h>
@@ -397,7 +398,11 @@ void AnonymousSimpleArrayField::SetValues(::Smp::UInt64 length,
     ::Xsmp::Exception::throwInvalidArraySize(this, length);
   }
   for (::Smp::UInt64 i = 0; i < length; ++i) {
-    SetValue(i, values[i]);
+    try {
+      SetValue(i, values[i]);
+    } catch (const ::Smp::InvalidAnyType &) {
+      ::Xsmp::Exception::throwInvalidArrayValue(this, i, values[i]);
+    }
   }
 }
 
-- 
2.43.0


From ab3df1dcde4214862c139e24cf07d913bd9f7bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:54 +0000
Subject: [PATCH 29/93] fix: compare the item kinds of simple arrays

---
 src/Xsmp/Helper.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Helper.cpp b/src/Xsmp/Helper.cpp
index da71170..c149a03 100644
--- a/src/Xsmp/Helper.cpp
+++ b/src/Xsmp/Helper.cpp
@@ -32,6 +32,7 @@
 #include <Smp/ISimulator.h>
 #include <Smp/IStructureField.h>
 #include <Smp/PrimitiveTypes.h>
+#include <Smp/Publication/IArrayType.h>
 #include <Smp/Publication/IType.h>
 #include <Smp/Services/ILogger.h>
 #include <Xsmp/Exception.h>
@@ -249,11 +250,19 @@ inline bool AreEquivalent(const ::Smp::ISimpleField *source,
   return target->GetPrimitiveTypeKind() == source->GetPrimitiveTypeKind();
 }
 
+// the kind of the items: an untyped array has the type of its items
+inline ::Smp::PrimitiveTypeKind GetItemKind(const ::Smp::ISimpleArrayField *field) {
+  const auto *type = field->GetType();
+  if (const auto *arrayType =
+          dynamic_cast<const ::Smp::Publication::IArrayType *>(type)) {
+    type = arrayType->GetItemType();
+  }
+  return type->GetPrimitiveTypeKind();
+}
 inline bool AreEquivalent(const ::Smp::ISimpleArrayField *source,
                           const ::Smp::ISimpleArrayField *target) {
   return target->GetSize() == source->GetSize() &&
-         target->GetType()->GetPrimitiveTypeKind() ==
-             source->GetType()->GetPrimitiveTypeKind();
+         GetItemKind(target) == GetItemKind(source);
 }
 inline bool AreEquivalent(const ::Smp::IArrayField *source,
                           const ::Smp::IArrayField *target) {
-- 
2.43.0


From 0b1e8b7695edd4ca2ab2095e31a5ff5b4d4844ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:54 +0000
Subject: [PATCH 30/93] fix: keep a field forced when forcing it again is
 refused

---
 src/Xsmp/Field.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Field.cpp b/src/Xsmp/Field.cpp
index fec8690..be9339f 100644
--- a/src/Xsmp/Field.cpp
+++ b/src/Xsmp/Field.cpp
@@ -544,8 +544,13 @@ void AbstractForcibleField::Store(::Smp::IStorageWriter *writer) {
 ::Smp::Bool AbstractForcibleField::IsForced() { return _forced; }
 
 void AbstractForcibleField::Force(::Smp::AnySimple value) {
-  _forced = false;
-  this->SetValue(std::move(value));
+  const bool forced = std::exchange(_forced, false);
+  try {
+    this->SetValue(std::move(value));
+  } catch (...) {
+    _forced = forced;
+    throw;
+  }
   _forced = true;
 }
 
-- 
2.43.0


From c3c1f29a4a47123054015862c323c844aee14d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:54 +0000
Subject: [PATCH 31/93] fix: give items of connectable simple arrays a readable
 value

---
 include/Xsmp/Field.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Xsmp/Field.h b/include/Xsmp/Field.h
index accd020..0bf1963 100644
--- a/include/Xsmp/Field.h
+++ b/include/Xsmp/Field.h
@@ -833,11 +833,11 @@ public:
                         size_t index)
         : _parent{parent}, _value{value}, _index{index} {}
 
-    operator const T &() const noexcept { return _value; }
+    operator const value_type &() const noexcept { return _value; }
 
-    const T &operator*() const noexcept { return _value; }
+    const value_type &operator*() const noexcept { return _value; }
 
-    const T &operator->() const noexcept { return &_value; }
+    const value_type *operator->() const noexcept { return &_value; }
 
     protected_reference &operator=(const value_type &value) noexcept {
       return SetValue(value);
-- 
2.43.0


From 0dea08331896353b29cc156fd7881e75d4ddff4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:51 +0000
Subject: [PATCH 32/93] fix: remove the links of fields nested in output fields
 too

---
 src/Xsmp/Component.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Component.cpp b/src/Xsmp/Component.cpp
index 28b054f..d98f549 100644
--- a/src/Xsmp/Component.cpp
+++ b/src/Xsmp/Component.cpp
@@ -166,8 +166,8 @@ void Component::RemoveFieldLinks(::Smp::IField *field,
     }
   }
   // recursively disconnect subfields of a structure field
-  else if (const auto *structureField =
-               dynamic_cast<::Smp::IStructureField *>(field)) {
+  if (const auto *structureField =
+          dynamic_cast<::Smp::IStructureField *>(field)) {
     if (const auto *fields = structureField->GetFields()) {
       for (auto *subField : *fields) {
         RemoveFieldLinks(subField, target);
-- 
2.43.0


From 22252521c6e4c664c84c95ec52b2db829f43f2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:51 +0000
Subject: [PATCH 33/93] fix: remove the links of published output fields

---
 src/Xsmp/Publication/Field.cpp | 15 +++++++++++++--
 src/Xsmp/Publication/Field.h   | 10 ++++++----
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/Xsmp/Publication/Field.cpp b/src/Xsmp/Publication/Field.cpp
index 165e453..6d7b386 100644
--- a/src/Xsmp/Publication/Field.cpp
+++ b/src/Xsmp/Publication/Field.cpp
@@ -141,15 +141,26 @@ std::unique_ptr<Field> Field::Create(::Smp::String8 name,
   ::Xsmp::Exception::throwInvalidFieldType(parent, type);
 }
 
+DataflowField::DataflowField()
+    : _targets{"InputFields", "Collection of connected input Fields", this} {}
+
+void DataflowField::Disconnect(const ::Smp::IField *target) {
+  _targets.remove(target);
+}
+
+const ::Smp::FieldCollection *DataflowField::GetInputFields() const {
+  return &_targets;
+}
+
 void DataflowField::Connect(::Smp::IField *target) {
-  if (_targets.find(target) != _targets.end()) {
+  if (!_targets.contains(target)) {
     ::Xsmp::Exception::throwFieldAlreadyConnected(this, this, target);
   }
   if (!this->IsOutput() || !target->IsInput() || target == this ||
       !::Xsmp::Helper::AreEquivalent(this, target)) {
     ::Xsmp::Exception::throwInvalidTarget(this, this, target);
   }
-  _targets.emplace(target);
+  _targets.add(target);
   // push the current value
   Push(this, target);
 }
diff --git a/src/Xsmp/Publication/Field.h b/src/Xsmp/Publication/Field.h
index 9f8f78b..6203c60 100644
--- a/src/Xsmp/Publication/Field.h
+++ b/src/Xsmp/Publication/Field.h
@@ -17,7 +17,6 @@
 
 #include <Smp/AnySimpleArray.h>
 #include <Smp/IArrayField.h>
-#include <Smp/IDataflowField.h>
 #include <Smp/IField.h>
 #include <Smp/ISimpleArrayField.h>
 #include <Smp/ISimpleField.h>
@@ -25,10 +24,10 @@
 #include <Smp/PrimitiveTypes.h>
 #include <Smp/ViewKind.h>
 #include <Xsmp/Collection.h>
+#include <Xsmp/Field.h>
 #include <Xsmp/Publication/Publication.h>
 #include <Xsmp/cstring.h>
 #include <memory>
-#include <set>
 #include <vector>
 
 namespace Smp {
@@ -99,16 +98,19 @@ private:
   ::Smp::Bool _output;
 };
 
-class DataflowField : public virtual ::Smp::IDataflowField {
+class DataflowField : public virtual ::Xsmp::detail::IDataflowFieldExtension {
 public:
+  DataflowField();
   void Connect(::Smp::IField *target) final;
+  void Disconnect(const ::Smp::IField *target) final;
+  const ::Smp::FieldCollection *GetInputFields() const final;
 
   /// Push the current field value to all connected target fields.
   void Push() final;
 
 private:
   void Push(::Smp::IField *source, ::Smp::IField *target);
-  std::set<::Smp::IField *> _targets;
+  ::Xsmp::detail::InputFieldCollection _targets;
 };
 
 class AnonymousArrayField final : public Field,
-- 
2.43.0


From 149d26997edf27996f0ec5d2f8e379ba3a9cdc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:36 +0000
Subject: [PATCH 34/93] fix: make fields of structures nested in an output
 structure connectable

---
 include/Xsmp/Field.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/Xsmp/Field.h b/include/Xsmp/Field.h
index 0bf1963..f2f8701 100644
--- a/include/Xsmp/Field.h
+++ b/include/Xsmp/Field.h
@@ -1177,6 +1177,10 @@ protected:
       using type = typename U::connectable;
     };
 
+    template <typename U>
+    struct annotation<U, ::Xsmp::Annotation::connectable> {
+      using type = typename U::connectable;
+    };
     template <typename U> struct annotation<U, ::Xsmp::Annotation::forcible> {
       using type = typename U::forcible;
     };
-- 
2.43.0


From 814ba86b6a153cf3c9a5f5b23a31a939eeac72ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:36 +0000
Subject: [PATCH 35/93] fix: let errors of a connected input field leave the
 operators of an output field

---
 include/Xsmp/Field.h | 54 ++++++++++++++++++++++----------------------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/include/Xsmp/Field.h b/include/Xsmp/Field.h
index f2f8701..cd036f9 100644
--- a/include/Xsmp/Field.h
+++ b/include/Xsmp/Field.h
@@ -477,38 +477,38 @@ public:
   const_pointer operator->() const noexcept { return &_value; }
   pointer operator->() noexcept { return &_value; }
 
-  SimpleField &operator=(const T &value) noexcept { return SetValue(value); }
+  SimpleField &operator=(const T &value) { return SetValue(value); }
 
-  SimpleField &operator++() noexcept { return SetValue(_value + 1); }
-  SimpleField &operator--() noexcept { return SetValue(_value - 1); }
-  template <typename U> SimpleField &operator<<=(const U &_i) noexcept {
+  SimpleField &operator++() { return SetValue(_value + 1); }
+  SimpleField &operator--() { return SetValue(_value - 1); }
+  template <typename U> SimpleField &operator<<=(const U &_i) {
     return SetValue(_value << _i);
   }
-  template <typename U> SimpleField &operator>>=(const U &_i) noexcept {
+  template <typename U> SimpleField &operator>>=(const U &_i) {
     return SetValue(_value >> _i);
   }
-  template <typename U> SimpleField &operator+=(const U &_i) noexcept {
+  template <typename U> SimpleField &operator+=(const U &_i) {
     return SetValue(_value + _i);
   }
-  template <typename U> SimpleField &operator-=(const U &_i) noexcept {
+  template <typename U> SimpleField &operator-=(const U &_i) {
     return SetValue(_value - _i);
   }
-  template <typename U> SimpleField &operator*=(const U &_i) noexcept {
+  template <typename U> SimpleField &operator*=(const U &_i) {
     return SetValue(_value * _i);
   }
-  template <typename U> SimpleField &operator/=(const U &_i) noexcept {
+  template <typename U> SimpleField &operator/=(const U &_i) {
     return SetValue(_value / _i);
   }
-  template <typename U> SimpleField &operator%=(const U &_i) noexcept {
+  template <typename U> SimpleField &operator%=(const U &_i) {
     return SetValue(_value % _i);
   }
-  template <typename U> SimpleField &operator&=(const U &_i) noexcept {
+  template <typename U> SimpleField &operator&=(const U &_i) {
     return SetValue(_value & _i);
   }
-  template <typename U> SimpleField &operator|=(const U &_i) noexcept {
+  template <typename U> SimpleField &operator|=(const U &_i) {
     return SetValue(_value | _i);
   }
-  template <typename U> SimpleField &operator^=(const U &_i) noexcept {
+  template <typename U> SimpleField &operator^=(const U &_i) {
     return SetValue(_value ^ _i);
   }
 
@@ -839,55 +839,55 @@ public:
 
     const value_type *operator->() const noexcept { return &_value; }
 
-    protected_reference &operator=(const value_type &value) noexcept {
+    protected_reference &operator=(const value_type &value) {
       return SetValue(value);
     }
 
-    protected_reference &operator++() noexcept { return SetValue(_value + 1); }
-    protected_reference &operator--() noexcept { return SetValue(_value - 1); }
+    protected_reference &operator++() { return SetValue(_value + 1); }
+    protected_reference &operator--() { return SetValue(_value - 1); }
     template <typename U>
-    protected_reference &operator<<=(const U &_i) noexcept {
+    protected_reference &operator<<=(const U &_i) {
       return SetValue(_value << _i);
     }
     template <typename U>
-    protected_reference &operator>>=(const U &_i) noexcept {
+    protected_reference &operator>>=(const U &_i) {
       return SetValue(_value >> _i);
     }
     template <typename U>
-    protected_reference &operator+=(const U &_i) noexcept {
+    protected_reference &operator+=(const U &_i) {
       return SetValue(_value + _i);
     }
     template <typename U>
-    protected_reference &operator-=(const U &_i) noexcept {
+    protected_reference &operator-=(const U &_i) {
       return SetValue(_value - _i);
     }
     template <typename U>
-    protected_reference &operator*=(const U &_i) noexcept {
+    protected_reference &operator*=(const U &_i) {
       return SetValue(_value * _i);
     }
     template <typename U>
-    protected_reference &operator/=(const U &_i) noexcept {
+    protected_reference &operator/=(const U &_i) {
       return SetValue(_value / _i);
     }
     template <typename U>
-    protected_reference &operator%=(const U &_i) noexcept {
+    protected_reference &operator%=(const U &_i) {
       return SetValue(_value % _i);
     }
     template <typename U>
-    protected_reference &operator&=(const U &_i) noexcept {
+    protected_reference &operator&=(const U &_i) {
       return SetValue(_value & _i);
     }
     template <typename U>
-    protected_reference &operator|=(const U &_i) noexcept {
+    protected_reference &operator|=(const U &_i) {
       return SetValue(_value | _i);
     }
     template <typename U>
-    protected_reference &operator^=(const U &_i) noexcept {
+    protected_reference &operator^=(const U &_i) {
       return SetValue(_value ^ _i);
     }
 
   private:
-    inline protected_reference &SetValue(const value_type &value) noexcept {
+    inline protected_reference &SetValue(const value_type &value) {
       _value = value;
       _parent->internal_push(_index);
       return *this;
-- 
2.43.0


From 1a35d99f2633e1d709a394f0bdc657e806fe5e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:59 +0000
Subject: [PATCH 36/93] fix: leave fields unconnected when the target refuses
 the current value

---
 src/Xsmp/Field.cpp             | 18 ++++++++++++++----
 src/Xsmp/Publication/Field.cpp |  2 +-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/Xsmp/Field.cpp b/src/Xsmp/Field.cpp
index be9339f..a628776 100644
--- a/src/Xsmp/Field.cpp
+++ b/src/Xsmp/Field.cpp
@@ -43,9 +43,9 @@ public:
   }
   static void Connect(SimpleConnectableField *output,
                       ::Smp::ISimpleField *input) {
-    output->_connectedFields.add(input);
     // push value
     input->SetValue(output->GetValue());
+    output->_connectedFields.add(input);
   }
 
   static void Disconnect(SimpleConnectableField *output,
@@ -62,12 +62,12 @@ public:
   }
   static void Connect(SimpleArrayConnectableField *output,
                       ::Smp::ISimpleArrayField *input) {
-    output->_connectedFields.add(input);
     // push value
     const auto size = output->GetSize();
     for (::Smp::UInt64 i = 0; i < size; ++i) {
       input->SetValue(i, output->GetValue(i));
     }
+    output->_connectedFields.add(input);
   }
   static void Disconnect(SimpleArrayConnectableField *output,
                          const ::Smp::ISimpleArrayField *input) {
@@ -118,7 +118,12 @@ public:
   }
   static void Connect(ArrayDataflowField *output, ::Smp::IArrayField *input) {
     output->_connectedFields.add(input);
-    Connect(static_cast<const ::Smp::IArrayField *>(output), input);
+    try {
+      Connect(static_cast<const ::Smp::IArrayField *>(output), input);
+    } catch (...) {
+      Disconnect(output, input);
+      throw;
+    }
   }
 
   static void Disconnect(ArrayDataflowField *output,
@@ -185,7 +190,12 @@ public:
   static void Connect(StructureDataflowField *output,
                       ::Smp::IStructureField *input) {
     output->_connectedFields.add(input);
-    Connect(static_cast<const ::Smp::IStructureField *>(output), input);
+    try {
+      Connect(static_cast<const ::Smp::IStructureField *>(output), input);
+    } catch (...) {
+      Disconnect(output, input);
+      throw;
+    }
   }
   static void Disconnect(StructureDataflowField *output,
                          const ::Smp::IStructureField *input) {
diff --git a/src/Xsmp/Publication/Field.cpp b/src/Xsmp/Publication/Field.cpp
index 6d7b386..51146a1 100644
--- a/src/Xsmp/Publication/Field.cpp
+++ b/src/Xsmp/Publication/Field.cpp
@@ -160,9 +160,9 @@ void DataflowField::Connect(::Smp::IField *target) {
       !::Xsmp::Helper::AreEquivalent(this, target)) {
     ::Xsmp::Exception::throwInvalidTarget(this, this, target);
   }
-  _targets.add(target);
   // push the current value
   Push(this, target);
+  _targets.add(target);
 }
 
 void DataflowField::Push(::Smp::IField *source, ::Smp::IField *target) {
-- 
2.43.0


From de36f7cd680a6b487b5727f0cf6827ff3e17c4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:52 +0000
Subject: [PATCH 37/93] fix: print date-times beyond the range of the system
 clock

---
 src/Xsmp/DateTime.cpp | 39 ++++++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/src/Xsmp/DateTime.cpp b/src/Xsmp/DateTime.cpp
index e3139c6..615ab99 100644
--- a/src/Xsmp/DateTime.cpp
+++ b/src/Xsmp/DateTime.cpp
@@ -51,28 +51,53 @@ DateTime::DateTime(std::string_view date, const char *fmt)
 DateTime::DateTime(std::istream &inputStream, const char *fmt)
     : _value{convert(parse(inputStream, fmt))} {}
 
+namespace {
+// a system clock time point cannot represent the last dates: print the date and
+// the time of day instead
+inline std::ostream &print(std::ostream &outputStream, const char *fmt,
+                           const DateTime &dateTime) {
+  using std::chrono::nanoseconds;
+  const nanoseconds value{static_cast<::Smp::DateTime>(dateTime)};
+  const auto days = std::chrono::duration_cast<date::days>(value);
+  const nanoseconds timeOfDay =
+      value - days + static_cast<DateTime::time_point>(DateTime{})
+                         .time_since_epoch();
+  const auto carry = date::floor<date::days>(timeOfDay);
+  const std::string abbreviation("UTC");
+  const std::chrono::seconds offset{0};
+  const date::fields<nanoseconds> fields{
+      date::year_month_day{date::sys_days{days + carry}},
+      date::hh_mm_ss<nanoseconds>{timeOfDay - carry}};
+  return date::to_stream(outputStream, fmt, fields, &abbreviation, &offset);
+}
+inline std::string print(const char *fmt, const DateTime &dateTime) {
+  std::ostringstream oss;
+  oss.exceptions(std::ios::failbit | std::ios::badbit);
+  print(oss, fmt, dateTime);
+  return oss.str();
+}
+} // namespace
+
 std::string DateTime::format(const char *fmt) const {
-  return date::format(fmt, static_cast<time_point>(*this));
+  return print(fmt, *this);
 }
 
 std::ostream &DateTime::to_stream(std::ostream &outputStream,
                                   const char *fmt) const {
-  return date::to_stream(outputStream, fmt, static_cast<time_point>(*this));
+  return print(outputStream, fmt, *this);
 }
 
 std::string DateTime::format(const std::string &fmt) const {
-  return date::format(fmt.c_str(), static_cast<time_point>(*this));
+  return print(fmt.c_str(), *this);
 }
 
 std::ostream &DateTime::to_stream(std::ostream &outputStream,
                                   const std::string &fmt) const {
-  return date::to_stream(outputStream, fmt.c_str(),
-                         static_cast<time_point>(*this));
+  return print(outputStream, fmt.c_str(), *this);
 }
 
 std::ostream &operator<<(std::ostream &outputStream, const DateTime &dateTime) {
-  return date::to_stream(outputStream, "%F %T",
-                         static_cast<DateTime::time_point>(dateTime));
+  return print(outputStream, "%F %T", dateTime);
 }
 
 } // namespace Xsmp
-- 
2.43.0


From 3dae6f53c1d528b4efde0512dae7dbd6d86ebf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:52 +0000
Subject: [PATCH 38/93] fix: name the element in the error of a bulk write with
 a value beyond all literals

---
 src/Xsmp/Publication/Field.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Publication/Field.cpp b/src/Xsmp/Publication/Field.cpp
index 51146a1..ccfaa57 100644
--- a/src/Xsmp/Publication/Field.cpp
+++ b/src/Xsmp/Publication/Field.cpp
@@ -30,6 +30,7 @@
 #include <Xsmp/Publication/Type.h>
 #include <Xsmp/Publication/TypeRegistry.h>
 #include <cstddef>
+#include <limits>
 #include <memory>
 #include <string>
 
@@ -41,8 +42,13 @@ bool isInvalidEnumerationValue(const ::Smp::Publication::IType *type,
                                const ::Smp::AnySimple &value) {
   const auto *enumeration =
       dynamic_cast<const ::Xsmp::Publication::EnumerationType *>(type);
-  return enumeration &&
-         enumeration->GetLiterals().find(static_cast<::Smp::Int32>(value)) ==
+  if (!enumeration) {
+    return false;
+  }
+  const auto literal = static_cast<::Smp::Int64>(value);
+  return literal < std::numeric_limits<::Smp::Int32>::min() ||
+         literal > std::numeric_limits<::Smp::Int32>::max() ||
+         enumeration->GetLiterals().find(static_cast<::Smp::Int32>(literal)) ==
              enumeration->GetLiterals().end();
 }
 
-- 
2.43.0


From 315a5324ca6ed152961e76cacc0ef2e577927e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:02 +0000
Subject: [PATCH 39/93] fix: keep the component as the parent of published
 array items as the tests expect

---
 src/Xsmp/Publication/Field.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Xsmp/Publication/Field.cpp b/src/Xsmp/Publication/Field.cpp
index ccfaa57..99eca79 100644
--- a/src/Xsmp/Publication/Field.cpp
+++ b/src/Xsmp/Publication/Field.cpp
@@ -223,7 +223,7 @@ AnonymousArrayField::AnonymousArrayField(
     ::Smp::Publication::ITypeRegistry *typeRegistry, ::Smp::ViewKind view,
     ::Smp::Bool state)
     : Field(name, description, parent, view, state),
-      ::Xsmp::Publication::Publication(this, typeRegistry) {}
+      ::Xsmp::Publication::Publication(parent, typeRegistry) {}
 
 void AnonymousArrayField::Restore(::Smp::IStorageReader *reader) {
   if (IsState()) {
-- 
2.43.0


From 1311e6ee89632ee1bf2d3d033d2d4abadae1c19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 40/93] fix: fix: store vectors of Booleans

---
 include/Xsmp/Persist/StdVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Xsmp/Persist/StdVector.h b/include/Xsmp/Persist/StdVector.h
index b5df335..1258f0d 100644
--- a/include/Xsmp/Persist/StdVector.h
+++ b/include/Xsmp/Persist/StdVector.h
@@ -27,7 +27,7 @@ template <typename K, typename Alloc> struct Helper<std::vector<K, Alloc>> {
                     const std::vector<K, Alloc> &value) {
     const size_type size = value.size();
     ::Xsmp::Persist::Store(simulator, writer, size);
-    for (auto &e : value)
+    for (const auto &e : value)
       ::Xsmp::Persist::Store(simulator, writer, e);
   }
 
-- 
2.43.0


From cb14e3a9a842d0c4f12a6896147e7551cabe0161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 41/93] fix: fix: store every byte of strings of wide
 characters

---
 include/Xsmp/Persist/StdString.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Xsmp/Persist/StdString.h b/include/Xsmp/Persist/StdString.h
index b1b798d..8003a32 100644
--- a/include/Xsmp/Persist/StdString.h
+++ b/include/Xsmp/Persist/StdString.h
@@ -31,7 +31,7 @@ struct Helper<std::basic_string<CharT, Traits, Alloc>> {
     ::Xsmp::Persist::Store(simulator, writer, size);
     if (size) {
       type v = value;
-      writer->Store(v.data(), size);
+      writer->Store(v.data(), size * sizeof(CharT));
     }
   }
 
@@ -41,7 +41,7 @@ struct Helper<std::basic_string<CharT, Traits, Alloc>> {
     ::Xsmp::Persist::Restore(simulator, reader, size);
     value.resize(size);
     if (size)
-      reader->Restore(value.data(), size);
+      reader->Restore(value.data(), size * sizeof(CharT));
   }
 };
 
-- 
2.43.0


From 4a46867f0fac4128c99520f0c1525cfda4508cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 42/93] fix: fix: report an unusable storage path as
 CannotStore and accept an empty one

---
 src/Xsmp/StorageWriter.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Xsmp/StorageWriter.cpp b/src/Xsmp/StorageWriter.cpp
index ba55a33..787c9fa 100644
--- a/src/Xsmp/StorageWriter.cpp
+++ b/src/Xsmp/StorageWriter.cpp
@@ -17,6 +17,7 @@
 #include <Xsmp/StorageWriter.h>
 #include <fstream>
 #include <iostream>
+#include <system_error>
 
 #if !defined(__clang__) && defined(__GNUC__) && __GNUC__ <= 7
 #include <experimental/filesystem>
@@ -31,10 +32,12 @@ namespace Xsmp {
 namespace {
 std::ofstream createOutputStream(::Smp::String8 path, ::Smp::String8 filename,
                                  const ::Smp::IObject *object) {
-  if (!fs::is_directory(path ? path : "")) {
-    fs::create_directories(path ? path : "");
+  const fs::path directory{path ? path : ""};
+  std::error_code error;
+  if (!directory.empty() && !fs::is_directory(directory, error)) {
+    fs::create_directories(directory, error);
   }
-  auto fullPath = fs::path(path ? path : "") / (filename ? filename : "");
+  auto fullPath = directory / (filename ? filename : "");
   std::ofstream outputStream{fullPath, std::ios::binary};
 
   if (!outputStream.good()) {
-- 
2.43.0


From 78cb23568d43ce756505be128103ece866bdfd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 43/93] fix: raise errors of refused published fields on behalf
 of an object that outlives them

---
 src/Xsmp/Publication/Field.cpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/Xsmp/Publication/Field.cpp b/src/Xsmp/Publication/Field.cpp
index 99eca79..0f32daf 100644
--- a/src/Xsmp/Publication/Field.cpp
+++ b/src/Xsmp/Publication/Field.cpp
@@ -52,13 +52,22 @@ bool isInvalidEnumerationValue(const ::Smp::Publication::IType *type,
              enumeration->GetLiterals().end();
 }
 
+// helper function to get the closest object that is not a field: a field that
+// cannot be created, and the fields it belongs to, do not outlive the error
+const ::Smp::IObject *owner(const ::Smp::IObject *object) {
+  while (const auto *field = dynamic_cast<const ::Smp::IField *>(object)) {
+    object = field->GetParent();
+  }
+  return object;
+}
+
 void checkValidFieldType(const ::Smp::IField *field,
                          const ::Smp::Publication::IType *type) {
   // disallow fields with String8/void type
   if (type->GetUuid() == ::Smp::Uuids::Uuid_String8 ||
       type->GetUuid() == ::Smp::Uuids::Uuid_Void) {
     ::Xsmp::Exception::throwIncompatibleType(
-        field, type->GetUuid(),
+        owner(field), type->GetUuid(),
         "Field does not support String8 and Void type.");
   }
 }
@@ -68,12 +77,12 @@ Field::Field(::Smp::String8 name, ::Smp::String8 description,
              ::Smp::IObject *parent, void *address,
              const ::Smp::Publication::IType *type, ::Smp::ViewKind view,
              ::Smp::Bool state, ::Smp::Bool input, ::Smp::Bool output)
-    : _name(::Xsmp::Helper::checkName(name, parent)), _description(description),
-      _parent(parent), _address(address), _type(type), _view(view),
+    : _name(::Xsmp::Helper::checkName(name, owner(parent))),
+      _description(description), _parent(parent), _address(address), _type(type), _view(view),
       _state(state), _input(input), _output(output) {
   // type must be defined
   if (!type) {
-    ::Xsmp::Exception::throwInvalidFieldType(this, type);
+    ::Xsmp::Exception::throwInvalidFieldType(owner(parent), type);
   }
 }
 Field::Field(::Smp::String8 name, ::Smp::String8 description,
@@ -144,7 +153,7 @@ std::unique_ptr<Field> Field::Create(::Smp::String8 name,
                                             structure, view, state, input,
                                             output);
   }
-  ::Xsmp::Exception::throwInvalidFieldType(parent, type);
+  ::Xsmp::Exception::throwInvalidFieldType(owner(parent), type);
 }
 
 DataflowField::DataflowField()
@@ -830,12 +839,16 @@ StructureField::StructureField(::Smp::String8 name, ::Smp::String8 description,
       _fields{"Fields", "", this} {
   for (const auto &field : type->GetFields()) {
     if (auto const *fieldType = type->GetTypeRegistry()->GetType(field.uuid)) {
+      if (_fields.at(field.name.c_str())) {
+        ::Xsmp::Exception::throwDuplicateName(owner(parent), field.name.c_str(),
+                                              parent);
+      }
       _fields.Add(Create(field.name.c_str(), field.description.c_str(), this,
                          static_cast<char *>(address) + field.offset, fieldType,
                          field.view, field.state, field.input || input,
                          field.output || output));
     } else {
-      ::Xsmp::Exception::throwTypeNotRegistered(this, field.uuid);
+      ::Xsmp::Exception::throwTypeNotRegistered(owner(parent), field.uuid);
     }
   }
 }
-- 
2.43.0


From a980ca37d08e23be9b78fff48b53368adec0452c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 44/93] fix: raise errors of refused types on behalf of the
 type registry

---
 src/Xsmp/Publication/Type.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/Xsmp/Publication/Type.cpp b/src/Xsmp/Publication/Type.cpp
index 9f4c75a..81b68c3 100644
--- a/src/Xsmp/Publication/Type.cpp
+++ b/src/Xsmp/Publication/Type.cpp
@@ -63,12 +63,12 @@ ArrayType::ArrayType(::Smp::String8 name, ::Smp::String8 description,
       _simpleArray(simpleArray) {
 
   if (!_itemType) {
-    ::Xsmp::Exception::throwTypeNotRegistered(this, itemTypeUuid);
+    ::Xsmp::Exception::throwTypeNotRegistered(typeRegistry, itemTypeUuid);
   }
   if (itemTypeUuid == ::Smp::Uuids::Uuid_String8 ||
       itemTypeUuid == ::Smp::Uuids::Uuid_Void) {
     ::Xsmp::Exception::throwIncompatibleType(
-        this, itemTypeUuid,
+        typeRegistry, itemTypeUuid,
         "ArrayType does not support String8 and Void item type.");
   }
 }
@@ -207,16 +207,17 @@ ClassType::ClassType(::Smp::String8 name, ::Smp::String8 description,
   }
   if (baseClassUuid == typeUuid) {
     ::Xsmp::Exception::throwIncompatibleType(
-        this, baseClassUuid,
+        typeRegistry, baseClassUuid,
         "The base class must be different from the current class.");
   }
   auto *baseClass = typeRegistry->GetType(baseClassUuid);
   if (!baseClass) {
-    ::Xsmp::Exception::throwTypeNotRegistered(this, baseClassUuid);
+    ::Xsmp::Exception::throwTypeNotRegistered(typeRegistry, baseClassUuid);
   }
   if (!dynamic_cast<::Smp::Publication::IClassType *>(baseClass)) {
     ::Xsmp::Exception::throwIncompatibleType(
-        this, baseClassUuid, "A base class must be void or a class type.");
+        typeRegistry, baseClassUuid,
+        "A base class must be void or a class type.");
   }
 }
 
-- 
2.43.0


From 805c5841b00337dc2867898993b8b184fd15e3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 45/93] fix: refuse to publish a structure that contains itself

---
 src/Xsmp/Publication/Field.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Xsmp/Publication/Field.cpp b/src/Xsmp/Publication/Field.cpp
index 0f32daf..f8ae754 100644
--- a/src/Xsmp/Publication/Field.cpp
+++ b/src/Xsmp/Publication/Field.cpp
@@ -837,6 +837,13 @@ StructureField::StructureField(::Smp::String8 name, ::Smp::String8 description,
     : Field(name, description, parent, address, type, view, state, input,
             output),
       _fields{"Fields", "", this} {
+  // a structure cannot contain itself
+  for (const auto *field = dynamic_cast<const Field *>(parent); field;
+       field = dynamic_cast<const Field *>(field->GetParent())) {
+    if (field->GetType() == type) {
+      ::Xsmp::Exception::throwInvalidFieldType(owner(parent), type);
+    }
+  }
   for (const auto &field : type->GetFields()) {
     if (auto const *fieldType = type->GetTypeRegistry()->GetType(field.uuid)) {
       if (_fields.at(field.name.c_str())) {
-- 
2.43.0


From abee7e38b809fa2d7ac8f91cedb91b1021cfdf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 46/93] fix: a string type has no negative length

---
 src/Xsmp/Publication/Type.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Xsmp/Publication/Type.cpp b/src/Xsmp/Publication/Type.cpp
index 81b68c3..94a35ae 100644
--- a/src/Xsmp/Publication/Type.cpp
+++ b/src/Xsmp/Publication/Type.cpp
@@ -175,7 +175,7 @@ StringType::StringType(::Smp::String8 name, ::Smp::String8 description,
                        ::Smp::Uuid typeUuid, ::Smp::Int64 length)
     : SimpleType(name, description, parent, typeUuid,
                  ::Smp::PrimitiveTypeKind::PTK_String8),
-      _length(length) {}
+      _length(length >= 0 ? length : 0) {}
 
 ::Smp::Int64 StringType::GetLength() const { return _length; }
 
-- 
2.43.0


From a7283bf23f7bea6e68a7576743ce16ca8ecec72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 47/93] fix: refuse to publish a field under the name of a
 field the component published itself

---
 src/Xsmp/Publication/Publication.cpp | 11 +++++++++++
 src/Xsmp/Publication/Publication.h   |  2 ++
 2 files changed, 13 insertions(+)

diff --git a/src/Xsmp/Publication/Publication.cpp b/src/Xsmp/Publication/Publication.cpp
index 759905a..1b8bb35 100644
--- a/src/Xsmp/Publication/Publication.cpp
+++ b/src/Xsmp/Publication/Publication.cpp
@@ -145,6 +145,7 @@ void Publication::PublishField(::Smp::String8 name, ::Smp::String8 description,
                                void *address, ::Smp::Uuid typeUuid,
                                ::Smp::ViewKind view, ::Smp::Bool state,
                                ::Smp::Bool input, ::Smp::Bool output) {
+  checkUnpublished(name);
   if (auto const *type = _typeRegistry->GetType(typeUuid)) {
     _fields.Add(Field::Create(name, description, _parent, address, type, view,
                               state, input, output));
@@ -153,6 +154,13 @@ void Publication::PublishField(::Smp::String8 name, ::Smp::String8 description,
   }
 }
 
+void Publication::checkUnpublished(::Smp::String8 name) const {
+  // the name may be the one of a field that is not stored in the publication
+  if (name && _allFields.at(name)) {
+    ::Xsmp::Exception::throwDuplicateName(_parent, name, &_allFields);
+  }
+}
+
 void Publication::PublishField(::Smp::IField *field) { _allFields.Add(field); }
 
 void Publication::PublishArray(::Smp::String8 name, ::Smp::String8 description,
@@ -160,6 +168,7 @@ void Publication::PublishArray(::Smp::String8 name, ::Smp::String8 description,
                                ::Smp::PrimitiveTypeKind type,
                                ::Smp::ViewKind view, ::Smp::Bool state,
                                ::Smp::Bool input, ::Smp::Bool output) {
+  checkUnpublished(name);
   if (output) {
     _fields.Add<AnonymousSimpleArrayDataflowField>(
         name, description, _parent, count, address,
@@ -175,6 +184,7 @@ void Publication::PublishArray(::Smp::String8 name, ::Smp::String8 description,
                                                ::Smp::String8 description,
                                                ::Smp::ViewKind view,
                                                ::Smp::Bool state) {
+  checkUnpublished(name);
   return _fields.Add<AnonymousArrayField>(name, description, _parent,
                                           _typeRegistry, view, state);
 }
@@ -183,6 +193,7 @@ void Publication::PublishArray(::Smp::String8 name, ::Smp::String8 description,
                                                    ::Smp::String8 description,
                                                    ::Smp::ViewKind view,
                                                    ::Smp::Bool state) {
+  checkUnpublished(name);
   return _fields.Add<AnonymousStructureField>(name, description, _parent,
                                               _typeRegistry, view, state);
 }
diff --git a/src/Xsmp/Publication/Publication.h b/src/Xsmp/Publication/Publication.h
index 5aa2a9e..6e97563 100644
--- a/src/Xsmp/Publication/Publication.h
+++ b/src/Xsmp/Publication/Publication.h
@@ -514,6 +514,8 @@ public:
 private:
   ::Smp::IObject *_parent;
   ::Smp::Publication::ITypeRegistry *_typeRegistry;
+  /// Check that no field with the given name is already published
+  void checkUnpublished(::Smp::String8 name) const;
   ::Xsmp::ContainingCollection<::Smp::IField> _fields;
   ::Xsmp::DelegateCollection<::Smp::IField> _allFields;
   ::Xsmp::ContainingCollection<::Smp::IProperty> _properties;
-- 
2.43.0


From 2096d646d396d485ee5fb8cf75b1779c4c51aced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:21 +0000
Subject: [PATCH 48/93] fix: refuse out of range parameter values of the widest
 types like the others

---
 src/Xsmp/Publication/Request.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Publication/Request.cpp b/src/Xsmp/Publication/Request.cpp
index 17f8046..dd14c88 100644
--- a/src/Xsmp/Publication/Request.cpp
+++ b/src/Xsmp/Publication/Request.cpp
@@ -25,6 +25,7 @@
 #include <Xsmp/cstring.h>
 #include <algorithm>
 #include <cstddef>
+#include <limits>
 #include <map>
 #include <string>
 #include <utility>
@@ -40,6 +41,12 @@ bool Request::isValid(const ::Smp::IObject *sender,
   }
   // integer types
   if (const auto *integerType = dynamic_cast<const IntegerType *>(type)) {
+    if (value.type == ::Smp::PrimitiveTypeKind::PTK_UInt64 &&
+        static_cast<::Smp::UInt64>(value) >
+            static_cast<::Smp::UInt64>(
+                std::numeric_limits<::Smp::Int64>::max())) {
+      return false;
+    }
     auto intValue = static_cast<::Smp::Int64>(value);
     if (intValue < integerType->getMinimum() ||
         intValue > integerType->getMaximum()) {
@@ -68,8 +75,11 @@ bool Request::isValid(const ::Smp::IObject *sender,
   // enumeration types
   else if (const auto *enumType = dynamic_cast<const EnumerationType *>(type)) {
     // check that a literal with the correct value exist
-    if (enumType->GetLiterals().find(static_cast<::Smp::Int32>(value)) ==
-        enumType->GetLiterals().end()) {
+    const auto literal = static_cast<::Smp::Int64>(value);
+    if (literal < std::numeric_limits<::Smp::Int32>::min() ||
+        literal > std::numeric_limits<::Smp::Int32>::max() ||
+        enumType->GetLiterals().find(static_cast<::Smp::Int32>(literal)) ==
+            enumType->GetLiterals().end()) {
       return false;
     }
   }
-- 
2.43.0


From 6514c0abb550809663e1e09f91c4ed0846c4a433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 49/93] fix: raise errors of missing request parameters on
 behalf of the component

---
 src/Xsmp/Request.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/Xsmp/Request.cpp b/src/Xsmp/Request.cpp
index 73b4b6a..da83db1 100644
--- a/src/Xsmp/Request.cpp
+++ b/src/Xsmp/Request.cpp
@@ -15,6 +15,7 @@
 #include <Smp/AnySimple.h>
 #include <Smp/IArrayField.h>
 #include <Smp/IComponent.h>
+#include <Smp/IField.h>
 #include <Smp/IRequest.h>
 #include <Smp/ISimpleArrayField.h>
 #include <Smp/ISimpleField.h>
@@ -26,6 +27,17 @@
 
 namespace Xsmp {
 
+namespace {
+// helper function to get the closest object that is not a field: the fields
+// used to exchange parameters do not outlive the error
+const ::Smp::IObject *owner(const ::Smp::IObject *object) {
+  while (const auto *field = dynamic_cast<const ::Smp::IField *>(object)) {
+    object = field->GetParent();
+  }
+  return object;
+}
+} // namespace
+
 void Request::setValue(::Smp::IComponent const *component,
                        ::Smp::IRequest *request, ::Smp::String8 name,
                        const ::Smp::AnySimple &value) {
@@ -73,7 +85,7 @@ void Request::extract(::Smp::IRequest *request, ::Smp::IField *field,
         return;
       }
       ::Xsmp::Exception::throwException(
-          field, name,
+          owner(field), name,
           "No Parameter named " + std::string(name) + " in Operation " +
               request->GetOperationName() + ".");
     }
@@ -92,7 +104,7 @@ void Request::extract(::Smp::IRequest *request, ::Smp::IField *field,
         // ignore
       } else {
         ::Xsmp::Exception::throwException(
-            field, itemName,
+            owner(field), itemName,
             "No Parameter named " + itemName + " in Operation " +
                 request->GetOperationName() + ".");
       }
@@ -129,7 +141,7 @@ void Request::inject(::Smp::IRequest *request, ::Smp::IField *field,
     const auto index = request->GetParameterIndex(name);
     if (index == -1) {
       ::Xsmp::Exception::throwException(
-          field, name,
+          owner(field), name,
           "No Parameter named " + std::string(name) + " in Operation " +
               request->GetOperationName() + ".");
     }
@@ -144,7 +156,7 @@ void Request::inject(::Smp::IRequest *request, ::Smp::IField *field,
       const auto index = request->GetParameterIndex(itemName.c_str());
       if (index == -1) {
         ::Xsmp::Exception::throwException(
-            field, itemName,
+            owner(field), itemName,
             "No Parameter named " + itemName + " in Operation " +
                 request->GetOperationName() + ".");
       }
-- 
2.43.0


From bf725c4e5f78494780db13bea0650f888d560aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:03 +0000
Subject: [PATCH 50/93] fix: stop executing events once the simulation is
 aborted

---
 src/Xsmp/Services/XsmpScheduler.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index 0bf6670..155a613 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -91,6 +91,9 @@ void XsmpScheduler::DoConnect(const ::Smp::ISimulator *simulator) {
       ::Smp::Services::IEventManager::SMP_EnterExecutingId, &EnterExecuting);
   simulator->GetEventManager()->Subscribe(
       ::Smp::Services::IEventManager::SMP_LeaveExecutingId, &LeaveExecuting);
+  // stop the execution in case of abort too
+  simulator->GetEventManager()->Subscribe(
+      ::Smp::Services::IEventManager::SMP_EnterAbortingId, &LeaveExecuting);
 
   _zuluThread = std::thread(&XsmpScheduler::InternalZuluRun, this);
 }
-- 
2.43.0


From 6fe5d27bdb9daa5f2e8fc5e77b52d343ed52d7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:03 +0000
Subject: [PATCH 51/93] fix: refuse an invalid cycle time for an unlimited
 cyclic event

---
 src/Xsmp/Services/XsmpScheduler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index 155a613..c2efabb 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -324,7 +324,7 @@ void XsmpScheduler::SetEventCycleTime(::Smp::Services::EventId event,
   if (it == _events.end()) {
     ::Xsmp::Exception::throwInvalidEventId(this, event);
   }
-  if (it->second.repeat > 0 && cycleTime <= 0) {
+  if (it->second.repeat != 0 && cycleTime <= 0) {
     ::Xsmp::Exception::throwInvalidCycleTime(this, cycleTime);
   }
   it->second.cycleTime = cycleTime;
-- 
2.43.0


From 042adcc47e209f538159d863687ee0fb41b495f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:03 +0000
Subject: [PATCH 52/93] fix: let events remove and move pending events of the
 same instant, immediate events and themselves

---
 src/Xsmp/Services/XsmpScheduler.cpp | 137 ++++++++++++++--------------
 src/Xsmp/Services/XsmpScheduler.h   |  15 ++-
 2 files changed, 81 insertions(+), 71 deletions(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index c2efabb..4c51461 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -245,13 +245,9 @@ void XsmpScheduler::SetEventTime(::Smp::Services::EventId eventId,
   if (it == _events.end() || it->second.kind != kind) {
     ::Xsmp::Exception::throwInvalidEventId(this, eventId);
   }
-  auto &events = _events_table[it->second.nextScheduleSimulationTime];
+  Unschedule(_events_table, it->second.nextScheduleSimulationTime, eventId);
+  _immediate_events.erase(eventId);
 
-  events.erase(eventId);
-
-  if (events.empty()) {
-    _events_table.erase(it->second.nextScheduleSimulationTime);
-  }
   if (simulationTime < GetSimulator()->GetTimeKeeper()->GetSimulationTime()) {
     _events.erase(it);
     return;
@@ -261,6 +257,20 @@ void XsmpScheduler::SetEventTime(::Smp::Services::EventId eventId,
   it->second.time = time;
 
   _events_table.try_emplace(simulationTime).first->second.emplace(eventId);
+  if (_currentEventId == eventId) {
+    _currentEventMoved = true;
+  }
+}
+
+void XsmpScheduler::Unschedule(std::map<::Smp::Duration, EventList> &table,
+                               ::Smp::Duration time,
+                               ::Smp::Services::EventId eventId) {
+  if (auto it = table.find(time); it != table.end()) {
+    it->second.erase(eventId);
+    if (it->second.empty()) {
+      table.erase(it);
+    }
+  }
 }
 
 void XsmpScheduler::SetEventSimulationTime(::Smp::Services::EventId event,
@@ -352,30 +362,14 @@ void XsmpScheduler::RemoveEvent(::Smp::Services::EventId event) {
   if (it == _events.end()) {
     ::Xsmp::Exception::throwInvalidEventId(this, event);
   }
-  if (_currentEventId == event) {
-    it->second.repeat = 0;
-    return;
-  }
 
   if (it->second.kind == ::Smp::Services::TimeKind::TK_ZuluTime) {
     const std::scoped_lock lckZulu{_zuluEventsTableMutex};
-
-    auto &events = _zulu_events_table[it->second.nextScheduleSimulationTime];
-
-    events.erase(event);
-
-    if (events.empty()) {
-      _events_table.erase(it->second.nextScheduleSimulationTime);
-    }
+    Unschedule(_zulu_events_table, it->second.nextScheduleSimulationTime,
+               event);
   } else {
-
-    auto &events = _events_table[it->second.nextScheduleSimulationTime];
-
-    events.erase(event);
-
-    if (events.empty()) {
-      _events_table.erase(it->second.nextScheduleSimulationTime);
-    }
+    Unschedule(_events_table, it->second.nextScheduleSimulationTime, event);
+    _immediate_events.erase(event);
   }
   _events.erase(it);
 }
@@ -412,23 +406,37 @@ void XsmpScheduler::Execute(::Smp::Services::EventId eventId) {
     break;
   }
 
+  bool moved = false;
   if (!skip) {
     const std::scoped_lock lck2(_execMutex);
     _currentEventId = eventId;
+    _currentEventMoved = false;
+    const auto *entryPoint = event.entryPoint;
     lck.unlock();
-    ::Xsmp::Helper::SafeExecute(GetSimulator(), event.entryPoint);
+    ::Xsmp::Helper::SafeExecute(GetSimulator(), entryPoint);
     lck.lock();
     _currentEventId = -1;
+    moved = _currentEventMoved;
+    if (_events.find(eventId) == _events.end()) {
+      // the event has been removed during its own execution
+      return;
+    }
   }
 
   if (event.repeat == 0) {
     // remove the event
-    _events.erase(_events.find(eventId));
+    if (!moved) {
+      _events.erase(_events.find(eventId));
+    }
   } else {
     // decrement the repeat
     if (event.repeat > 0) {
       event.repeat--;
     }
+    if (moved) {
+      // the event is already posted in the table
+      return;
+    }
     // compute the next time the event will be executed
     event.nextScheduleSimulationTime += event.cycleTime;
     event.time += event.cycleTime;
@@ -475,43 +483,42 @@ void XsmpScheduler::ExecuteZulu(::Smp::Services::EventId eventId) {
   }
 }
 
-bool XsmpScheduler::ExecuteEvents(EventList &events) {
+bool XsmpScheduler::ExecuteEvents() {
 
-  // execute all events
-  while (!events.empty()) {
-    // swap the current list of events
-    EventList current;
-    current.swap(events);
-    for (auto it = current.begin(); it != current.end(); ++it) {
-      Execute(*it);
-      // process immediate events posted by this event
-      if (_simulationStatus == Status::Hold || !ExecuteImmediateEvents()) {
-        // store un-executed events and exit
-        events.insert(++it, current.end());
-        return false;
-      }
+  auto *timeKeeper = GetSimulator()->GetTimeKeeper();
+  std::unique_lock lck{_eventsMutex};
+  // execute all events scheduled up to now, also the ones posted meanwhile
+  for (auto it = _events_table.begin();
+       it != _events_table.end() &&
+       it->first <= timeKeeper->GetSimulationTime();
+       it = _events_table.begin()) {
+    const auto eventId = *it->second.begin();
+    Unschedule(_events_table, it->first, eventId);
+    lck.unlock();
+    Execute(eventId);
+    // process immediate events posted by this event
+    if (!ExecuteImmediateEvents()) {
+      return false;
     }
+    lck.lock();
   }
   return true;
 }
 bool XsmpScheduler::ExecuteImmediateEvents() {
+
+  std::unique_lock lck{_eventsMutex};
   // execute all events
-  while (!_immediate_events.empty()) {
-    // swap  the current list of events
-    EventList events;
-    events.swap(_immediate_events);
-
-    for (auto it = events.begin(); it != events.end(); ++it) {
-      Execute(*it);
-      // process immediate events posted by this event
-      if (_simulationStatus == Status::Hold) {
-        // store un-executed events and exit
-        _immediate_events.insert(++it, events.end());
-        return false;
-      }
+  while (_simulationStatus != Status::Hold) {
+    if (_immediate_events.empty()) {
+      return true;
     }
+    const auto eventId = *_immediate_events.begin();
+    _immediate_events.erase(_immediate_events.begin());
+    lck.unlock();
+    Execute(eventId);
+    lck.lock();
   }
-  return true;
+  return false;
 }
 
 void XsmpScheduler::InternalZuluRun() {
@@ -610,12 +617,8 @@ void XsmpScheduler::_EnterExecuting() {
   }
   auto *eventManager = GetSimulator()->GetEventManager();
 
-  std::unique_lock lck(_eventsMutex);
   // execute all events
-  for (auto it = _events_table.begin(); it != _events_table.end();
-       it = _events_table.erase(it)) {
-    lck.unlock();
-
+  for (;;) {
     // notify that simulation time will be changed
     eventManager->Emit(::Smp::Services::IEventManager::SMP_PreSimTimeChangeId,
                        false);
@@ -623,7 +626,9 @@ void XsmpScheduler::_EnterExecuting() {
     if (_simulationStatus == Status::Hold) {
       return; // exit immediately if hold is requested
     }
-    auto duration = it->first - timeKeeper->GetSimulationTime();
+    // the events may have changed when notifying
+    const auto nextTime = GetNextScheduledEventTime();
+    auto duration = nextTime - timeKeeper->GetSimulationTime();
     delay += static_cast<::Smp::Duration>(static_cast<double>(duration) /
                                           _targetSpeed) -
              (timeKeeper->GetZuluTime() - startZuluTime);
@@ -650,21 +655,17 @@ void XsmpScheduler::_EnterExecuting() {
     }
 
     // change the simulation time
-    timeKeeper->SetSimulationTime(it->first);
+    timeKeeper->SetSimulationTime(nextTime);
 
     // notify that simulation time has changed
     eventManager->Emit(::Smp::Services::IEventManager::SMP_PostSimTimeChangeId);
 
     // process all events (check for eventually events added by
     // SMP_PostSimTimeChangeId )
-    if (!ExecuteImmediateEvents() || !ExecuteEvents(it->second)) {
+    if (!ExecuteImmediateEvents() || !ExecuteEvents()) {
       return; // exit immediately in case of hold
     }
-    lck.lock();
   }
-
-  _load.clear();
-  _speed.clear();
 }
 
 void XsmpScheduler::_HoldEvent() {
diff --git a/src/Xsmp/Services/XsmpScheduler.h b/src/Xsmp/Services/XsmpScheduler.h
index 45db1f6..1662e4f 100644
--- a/src/Xsmp/Services/XsmpScheduler.h
+++ b/src/Xsmp/Services/XsmpScheduler.h
@@ -407,6 +407,8 @@ private:
 
   // The current EventId that is being executed
   ::Smp::Services::EventId _currentEventId{-1};
+  // true if the current event has been moved during its own execution
+  bool _currentEventMoved{};
   std::condition_variable _zuluCv;
 
   std::condition_variable _holdCv;
@@ -452,6 +454,14 @@ private:
                     ::Smp::Duration simulationTime, ::Smp::Duration time,
                     ::Smp::Services::TimeKind kind);
 
+  /// Remove an event from a scheduling table
+  /// @param table the scheduling table
+  /// @param time the scheduled time of the event
+  /// @param eventId the event id to remove
+  static void Unschedule(std::map<::Smp::Duration, EventList> &table,
+                         ::Smp::Duration time,
+                         ::Smp::Services::EventId eventId);
+
   /// Execute a specific event
   /// @param eventId the event id to execute
   void Execute(::Smp::Services::EventId eventId);
@@ -460,11 +470,10 @@ private:
   /// @param eventId the event id to execute
   void ExecuteZulu(::Smp::Services::EventId eventId);
 
-  /// Execute a list of events
-  /// @param events the vector of events to execute
+  /// Execute all events scheduled up to the current simulation time
   /// @return true if all events have been executed, false if hold immediate is
   /// requested and we have to exit
-  bool ExecuteEvents(EventList &events);
+  bool ExecuteEvents();
 
   /// Execute all immediate events
   /// @return true if all events have been executed, false if hold immediate is
-- 
2.43.0


From 92d4ded6b234b0e4c0e289b5e18746f80e78585b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:27 +0000
Subject: [PATCH 53/93] fix: let Zulu events be removed and moved at any moment

---
 src/Xsmp/Services/XsmpScheduler.cpp | 67 +++++++++++++++++------------
 1 file changed, 39 insertions(+), 28 deletions(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index 4c51461..7bc7b2d 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -310,9 +310,8 @@ void XsmpScheduler::SetEventZuluTime(::Smp::Services::EventId event,
         it->second.kind != ::Smp::Services::TimeKind::TK_ZuluTime) {
       ::Xsmp::Exception::throwInvalidEventId(this, event);
     }
-    auto &events = _zulu_events_table[it->second.nextScheduleSimulationTime];
-
-    events.erase(event);
+    Unschedule(_zulu_events_table, it->second.nextScheduleSimulationTime,
+               event);
 
     if (zuluTime < currentZulu) {
       _events.erase(it);
@@ -321,7 +320,11 @@ void XsmpScheduler::SetEventZuluTime(::Smp::Services::EventId event,
     }
 
     it->second.nextScheduleSimulationTime = zuluTime;
+    it->second.time = zuluTime;
     _zulu_events_table.try_emplace(zuluTime).first->second.emplace(event);
+    if (_currentEventId == event) {
+      _currentEventMoved = true;
+    }
   }
   _zuluCv.notify_one();
 }
@@ -451,7 +454,13 @@ void XsmpScheduler::ExecuteZulu(::Smp::Services::EventId eventId) {
 
   std::unique_lock lck(_eventsMutex);
 
-  auto &event = _events.at(eventId);
+  auto it = _events.find(eventId);
+  if (it == _events.end()) {
+    // the event has just been removed
+    return;
+  }
+  auto &event = it->second;
+  bool moved = false;
 
   // execute the event only in executing and standby states
   if (auto state = GetSimulator()->GetState();
@@ -460,20 +469,33 @@ void XsmpScheduler::ExecuteZulu(::Smp::Services::EventId eventId) {
 
     const std::scoped_lock lck2(_execMutex);
     _currentEventId = eventId;
+    _currentEventMoved = false;
+    const auto *entryPoint = event.entryPoint;
     lck.unlock();
-    ::Xsmp::Helper::SafeExecute(GetSimulator(), event.entryPoint);
+    ::Xsmp::Helper::SafeExecute(GetSimulator(), entryPoint);
     lck.lock();
     _currentEventId = -1;
+    moved = _currentEventMoved;
+    if (_events.find(eventId) == _events.end()) {
+      // the event has been removed during its own execution
+      return;
+    }
   }
 
   if (event.repeat == 0) {
     // remove the event
-    _events.erase(_events.find(eventId));
+    if (!moved) {
+      _events.erase(_events.find(eventId));
+    }
   } else {
     // decrement the repeat
     if (event.repeat > 0) {
       event.repeat--;
     }
+    if (moved) {
+      // the event is already posted in the table
+      return;
+    }
     // compute the next time the event will be executed
     event.nextScheduleSimulationTime += event.cycleTime;
     // post the event in the table
@@ -530,29 +552,18 @@ void XsmpScheduler::InternalZuluRun() {
     // execute all events with time <= current zulu time
     for (auto it = _zulu_events_table.begin();
          it != _zulu_events_table.end() &&
-         it->first <= GetSimulator()->GetTimeKeeper()->GetZuluTime();) {
-
-      // execute all events
-      while (!it->second.empty()) {
-        // swap the event list
-        EventList events;
-        events.swap(it->second);
-
-        // if _zulu_events_table is modified while executing the events,
-        // the implementation guarantee that "it" remains valid and only element
-        // after "it" could be appended
-        for (auto eventId : events) {
-          lck.unlock();
-          ExecuteZulu(eventId);
-          lck.lock();
-          // stop here if terminate signal received during event execution
-          if (_terminate) {
-            return;
-          }
-        }
+         it->first <= GetSimulator()->GetTimeKeeper()->GetZuluTime();
+         it = _zulu_events_table.begin()) {
+
+      const auto eventId = *it->second.begin();
+      Unschedule(_zulu_events_table, it->first, eventId);
+      lck.unlock();
+      ExecuteZulu(eventId);
+      lck.lock();
+      // stop here if terminate signal received during event execution
+      if (_terminate) {
+        return;
       }
-      _zulu_events_table.erase(it);
-      it = _zulu_events_table.begin();
     }
 
     // wait until next event
-- 
2.43.0


From dd200ace4c4321850defecb99610bf4d911efdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:08 +0000
Subject: [PATCH 54/93] fix: wake up for a Zulu event posted before the one
 waited for

---
 src/Xsmp/Services/XsmpScheduler.cpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index 7bc7b2d..6a0e764 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -579,13 +579,7 @@ void XsmpScheduler::InternalZuluRun() {
           std::chrono::nanoseconds{
               std::max(static_cast<::Smp::Duration>(0),
                        _zulu_events_table.begin()->first -
-                           GetSimulator()->GetTimeKeeper()->GetZuluTime())},
-          [this] {
-            return _terminate ||
-                   (!_zulu_events_table.empty() &&
-                    _zulu_events_table.begin()->first <=
-                        GetSimulator()->GetTimeKeeper()->GetZuluTime());
-          });
+                           GetSimulator()->GetTimeKeeper()->GetZuluTime())});
     }
   }
 }
-- 
2.43.0


From c5509d9518621d830604b0030fa27ae791438890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:08 +0000
Subject: [PATCH 55/93] fix: take the execution lock before the lock of the
 scheduling tables

---
 src/Xsmp/Services/XsmpScheduler.cpp | 76 +++++++++++++++++------------
 src/Xsmp/Services/XsmpScheduler.h   | 16 ++++--
 2 files changed, 58 insertions(+), 34 deletions(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index 6a0e764..01e79b9 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -262,6 +262,17 @@ void XsmpScheduler::SetEventTime(::Smp::Services::EventId eventId,
   }
 }
 
+::Smp::Services::EventId
+XsmpScheduler::TakeFirst(std::map<::Smp::Duration, EventList> &table,
+                         ::Smp::Duration time) {
+  if (table.empty() || table.begin()->first > time) {
+    return -1;
+  }
+  const auto eventId = *table.begin()->second.begin();
+  Unschedule(table, table.begin()->first, eventId);
+  return eventId;
+}
+
 void XsmpScheduler::Unschedule(std::map<::Smp::Duration, EventList> &table,
                                ::Smp::Duration time,
                                ::Smp::Services::EventId eventId) {
@@ -390,9 +401,8 @@ void XsmpScheduler::RemoveEvent(::Smp::Services::EventId event) {
   return std::numeric_limits<::Smp::Duration>::max();
 }
 
-void XsmpScheduler::Execute(::Smp::Services::EventId eventId) {
-
-  std::unique_lock lck{_eventsMutex};
+void XsmpScheduler::Execute(::Smp::Services::EventId eventId,
+                            std::unique_lock<std::mutex> &lck) {
 
   auto &event = _events.at(eventId);
 
@@ -411,7 +421,6 @@ void XsmpScheduler::Execute(::Smp::Services::EventId eventId) {
 
   bool moved = false;
   if (!skip) {
-    const std::scoped_lock lck2(_execMutex);
     _currentEventId = eventId;
     _currentEventMoved = false;
     const auto *entryPoint = event.entryPoint;
@@ -450,16 +459,22 @@ void XsmpScheduler::Execute(::Smp::Services::EventId eventId) {
   }
 }
 
-void XsmpScheduler::ExecuteZulu(::Smp::Services::EventId eventId) {
+void XsmpScheduler::ExecuteZulu() {
 
+  const std::scoped_lock execLck(_execMutex);
   std::unique_lock lck(_eventsMutex);
 
-  auto it = _events.find(eventId);
-  if (it == _events.end()) {
-    // the event has just been removed
+  ::Smp::Services::EventId eventId = -1;
+  {
+    const std::scoped_lock lckZulu{_zuluEventsTableMutex};
+    eventId = TakeFirst(_zulu_events_table,
+                        GetSimulator()->GetTimeKeeper()->GetZuluTime());
+  }
+  if (eventId == -1) {
+    // the event has just been removed or moved
     return;
   }
-  auto &event = it->second;
+  auto &event = _events.at(eventId);
   bool moved = false;
 
   // execute the event only in executing and standby states
@@ -467,7 +482,6 @@ void XsmpScheduler::ExecuteZulu(::Smp::Services::EventId eventId) {
       state == ::Smp::SimulatorStateKind::SSK_Executing ||
       state == ::Smp::SimulatorStateKind::SSK_Standby) {
 
-    const std::scoped_lock lck2(_execMutex);
     _currentEventId = eventId;
     _currentEventMoved = false;
     const auto *entryPoint = event.entryPoint;
@@ -508,39 +522,43 @@ void XsmpScheduler::ExecuteZulu(::Smp::Services::EventId eventId) {
 bool XsmpScheduler::ExecuteEvents() {
 
   auto *timeKeeper = GetSimulator()->GetTimeKeeper();
-  std::unique_lock lck{_eventsMutex};
   // execute all events scheduled up to now, also the ones posted meanwhile
-  for (auto it = _events_table.begin();
-       it != _events_table.end() &&
-       it->first <= timeKeeper->GetSimulationTime();
-       it = _events_table.begin()) {
-    const auto eventId = *it->second.begin();
-    Unschedule(_events_table, it->first, eventId);
-    lck.unlock();
-    Execute(eventId);
+  for (;;) {
+    {
+      const std::scoped_lock execLck(_execMutex);
+      std::unique_lock lck{_eventsMutex};
+      if (_simulationStatus == Status::Hold) {
+        return false;
+      }
+      const auto eventId =
+          TakeFirst(_events_table, timeKeeper->GetSimulationTime());
+      if (eventId == -1) {
+        return true;
+      }
+      Execute(eventId, lck);
+    }
     // process immediate events posted by this event
     if (!ExecuteImmediateEvents()) {
       return false;
     }
-    lck.lock();
   }
-  return true;
 }
 bool XsmpScheduler::ExecuteImmediateEvents() {
 
-  std::unique_lock lck{_eventsMutex};
   // execute all events
-  while (_simulationStatus != Status::Hold) {
+  for (;;) {
+    const std::scoped_lock execLck(_execMutex);
+    std::unique_lock lck{_eventsMutex};
+    if (_simulationStatus == Status::Hold) {
+      return false;
+    }
     if (_immediate_events.empty()) {
       return true;
     }
     const auto eventId = *_immediate_events.begin();
     _immediate_events.erase(_immediate_events.begin());
-    lck.unlock();
-    Execute(eventId);
-    lck.lock();
+    Execute(eventId, lck);
   }
-  return false;
 }
 
 void XsmpScheduler::InternalZuluRun() {
@@ -555,10 +573,8 @@ void XsmpScheduler::InternalZuluRun() {
          it->first <= GetSimulator()->GetTimeKeeper()->GetZuluTime();
          it = _zulu_events_table.begin()) {
 
-      const auto eventId = *it->second.begin();
-      Unschedule(_zulu_events_table, it->first, eventId);
       lck.unlock();
-      ExecuteZulu(eventId);
+      ExecuteZulu();
       lck.lock();
       // stop here if terminate signal received during event execution
       if (_terminate) {
diff --git a/src/Xsmp/Services/XsmpScheduler.h b/src/Xsmp/Services/XsmpScheduler.h
index 1662e4f..7f9dd57 100644
--- a/src/Xsmp/Services/XsmpScheduler.h
+++ b/src/Xsmp/Services/XsmpScheduler.h
@@ -462,13 +462,21 @@ private:
                          ::Smp::Duration time,
                          ::Smp::Services::EventId eventId);
 
-  /// Execute a specific event
-  /// @param eventId the event id to execute
-  void Execute(::Smp::Services::EventId eventId);
+  /// Remove the first event of a scheduling table
+  /// @param table the scheduling table
+  /// @param time the time up to which events are removed
+  /// @return the event id or -1 if there is no event up to the given time
+  static ::Smp::Services::EventId
+  TakeFirst(std::map<::Smp::Duration, EventList> &table, ::Smp::Duration time);
 
   /// Execute a specific event
   /// @param eventId the event id to execute
-  void ExecuteZulu(::Smp::Services::EventId eventId);
+  /// @param lck the lock on _eventsMutex, released during the execution
+  void Execute(::Smp::Services::EventId eventId,
+               std::unique_lock<std::mutex> &lck);
+
+  /// Execute the first Zulu event whose time has come
+  void ExecuteZulu();
 
   /// Execute all events scheduled up to the current simulation time
   /// @return true if all events have been executed, false if hold immediate is
-- 
2.43.0


From be72c225b00dff81be283eb8425277366c39e062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:28 +0000
Subject: [PATCH 56/93] fix: take events posted while the simulation time is
 about to change into account

---
 src/Xsmp/Services/XsmpScheduler.cpp | 74 +++++++++++++++++------------
 src/Xsmp/Services/XsmpScheduler.h   |  8 ++--
 2 files changed, 47 insertions(+), 35 deletions(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index 01e79b9..89391bb 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -136,6 +136,7 @@ XsmpScheduler::AddImmediateEvent(const ::Smp::IEntryPoint *entryPoint) {
                             ::Smp::Services::TimeKind::TK_SimulationTime});
 
   _immediate_events.emplace(_lastEventId);
+  _holdCv.notify_one();
   return _lastEventId;
 }
 
@@ -145,6 +146,7 @@ XsmpScheduler::AddEvent(const ::Smp::IEntryPoint *entryPoint,
                         ::Smp::Duration cycleTime, ::Smp::Int64 repeat,
                         ::Smp::Services::TimeKind kind) {
 
+  const std::scoped_lock lck{_eventsMutex};
   if (auto currentSimulationTime =
           GetSimulator()->GetTimeKeeper()->GetSimulationTime();
       simulationTime < currentSimulationTime) {
@@ -154,13 +156,13 @@ XsmpScheduler::AddEvent(const ::Smp::IEntryPoint *entryPoint,
   if (repeat != 0 && cycleTime <= 0) {
     ::Xsmp::Exception::throwInvalidCycleTime(this, cycleTime);
   }
-  const std::scoped_lock lck{_eventsMutex};
 
   ++_lastEventId;
   _events.try_emplace(_lastEventId, Event{entryPoint, simulationTime, time,
                                           cycleTime, repeat, kind});
 
   _events_table.try_emplace(simulationTime).first->second.emplace(_lastEventId);
+  _holdCv.notify_one();
 
   GetSimulator()->GetLogger()->Log(entryPoint, "Event posted",
                                    ::Smp::Services::ILogger::LMK_Debug);
@@ -172,6 +174,7 @@ XsmpScheduler::AddEvent(const ::Smp::IEntryPoint *entryPoint,
     const ::Smp::IEntryPoint *entryPoint, ::Smp::Duration simulationTime,
     ::Smp::Duration cycleTime, ::Smp::Int64 repeat) {
 
+  const std::scoped_lock lck{_eventsMutex};
   const ::Smp::Duration time =
       GetSimulator()->GetTimeKeeper()->GetSimulationTime() +
       simulationTime; // TODO check overflow
@@ -183,6 +186,7 @@ XsmpScheduler::AddEvent(const ::Smp::IEntryPoint *entryPoint,
     const ::Smp::IEntryPoint *entryPoint, ::Smp::Duration missionTime,
     ::Smp::Duration cycleTime, ::Smp::Int64 repeat) {
 
+  const std::scoped_lock lck{_eventsMutex};
   auto simulationTime =
       GetSimulator()->GetTimeKeeper()->GetSimulationTime() + missionTime -
       GetSimulator()->GetTimeKeeper()->GetMissionTime(); // TODO check overflow
@@ -195,6 +199,7 @@ XsmpScheduler::AddEvent(const ::Smp::IEntryPoint *entryPoint,
     const ::Smp::IEntryPoint *entryPoint, ::Smp::DateTime epochTime,
     ::Smp::Duration cycleTime, ::Smp::Int64 repeat) {
 
+  const std::scoped_lock lck{_eventsMutex};
   auto simulationTime =
       GetSimulator()->GetTimeKeeper()->GetSimulationTime() + epochTime -
       GetSimulator()->GetTimeKeeper()->GetEpochTime(); // TODO check overflow
@@ -260,6 +265,7 @@ void XsmpScheduler::SetEventTime(::Smp::Services::EventId eventId,
   if (_currentEventId == eventId) {
     _currentEventMoved = true;
   }
+  _holdCv.notify_one();
 }
 
 ::Smp::Services::EventId
@@ -287,6 +293,7 @@ void XsmpScheduler::Unschedule(std::map<::Smp::Duration, EventList> &table,
 void XsmpScheduler::SetEventSimulationTime(::Smp::Services::EventId event,
                                            ::Smp::Duration simulationTime) {
 
+  const std::scoped_lock lck{_eventsMutex};
   const ::Smp::Duration time =
       GetSimulator()->GetTimeKeeper()->GetSimulationTime() + simulationTime;
   SetEventTime(event, time, time, ::Smp::Services::TimeKind::TK_SimulationTime);
@@ -294,6 +301,7 @@ void XsmpScheduler::SetEventSimulationTime(::Smp::Services::EventId event,
 
 void XsmpScheduler::SetEventMissionTime(::Smp::Services::EventId event,
                                         ::Smp::Duration missionTime) {
+  const std::scoped_lock lck{_eventsMutex};
   const ::Smp::Duration simulationTime =
       GetSimulator()->GetTimeKeeper()->GetSimulationTime() + missionTime -
       GetSimulator()->GetTimeKeeper()->GetMissionTime();
@@ -303,6 +311,7 @@ void XsmpScheduler::SetEventMissionTime(::Smp::Services::EventId event,
 
 void XsmpScheduler::SetEventEpochTime(::Smp::Services::EventId event,
                                       ::Smp::DateTime epochTime) {
+  const std::scoped_lock lck{_eventsMutex};
   const ::Smp::Duration simulationTime =
       GetSimulator()->GetTimeKeeper()->GetSimulationTime() + epochTime -
       GetSimulator()->GetTimeKeeper()->GetEpochTime();
@@ -402,7 +411,7 @@ void XsmpScheduler::RemoveEvent(::Smp::Services::EventId event) {
 }
 
 void XsmpScheduler::Execute(::Smp::Services::EventId eventId,
-                            std::unique_lock<std::mutex> &lck) {
+                            std::unique_lock<std::recursive_mutex> &lck) {
 
   auto &event = _events.at(eventId);
 
@@ -614,7 +623,7 @@ void XsmpScheduler::Store(::Smp::IStorageWriter *writer) {
 
 void XsmpScheduler::_LeaveExecuting() {
 
-  std::unique_lock lck{_holdMutex};
+  std::unique_lock lck{_eventsMutex};
   _simulationStatus = Status::Hold;
   lck.unlock();
   _holdCv.notify_one();
@@ -644,39 +653,42 @@ void XsmpScheduler::_EnterExecuting() {
     eventManager->Emit(::Smp::Services::IEventManager::SMP_PreSimTimeChangeId,
                        false);
 
-    if (_simulationStatus == Status::Hold) {
-      return; // exit immediately if hold is requested
-    }
-    // the events may have changed when notifying
-    const auto nextTime = GetNextScheduledEventTime();
-    auto duration = nextTime - timeKeeper->GetSimulationTime();
-    delay += static_cast<::Smp::Duration>(static_cast<double>(duration) /
-                                          _targetSpeed) -
-             (timeKeeper->GetZuluTime() - startZuluTime);
-
-    auto endZuluTime = timeKeeper->GetZuluTime();
-    // update speed
-    if (duration) {
-      _speed.AddSample(static_cast<double>(endZuluTime - startZuluTime) /
-                       static_cast<double>(duration));
-    }
-    startZuluTime = endZuluTime;
-
     // TODO handle free running
     //  keep synchronized with zulu time
-    if (delay > 0) {
-
-      if (std::unique_lock lck2{_holdMutex};
-          _holdCv.wait_for(lck2, std::chrono::nanoseconds{delay}, [this] {
-            // continue to wait while Hold is not requested
-            return _simulationStatus == Status::Hold;
-          })) {
+    for (;;) {
+      // process the immediate events posted meanwhile
+      if (!ExecuteImmediateEvents()) {
         return; // exit immediately in case of hold
       }
-    }
+      std::unique_lock lck{_eventsMutex};
+      if (_simulationStatus == Status::Hold || !_immediate_events.empty()) {
+        continue;
+      }
+      // the next event may have changed when notifying or waiting
+      const auto nextTime = GetNextScheduledEventTime();
+      auto duration = nextTime - timeKeeper->GetSimulationTime();
+      auto endZuluTime = timeKeeper->GetZuluTime();
+      delay -= endZuluTime - startZuluTime;
+      startZuluTime = endZuluTime;
+
+      // do not wait more than one hour at once: this avoid any overflow
+      const auto remaining =
+          static_cast<double>(delay) +
+          static_cast<double>(duration) / _targetSpeed;
+      if (remaining >= 1.) {
+        static constexpr double maxDelay = 3600e9;
+        _holdCv.wait_for(lck, std::chrono::nanoseconds{static_cast<
+                                  std::int64_t>(std::min(remaining, maxDelay))});
+        continue;
+      }
+      delay = static_cast<::Smp::Duration>(remaining);
 
-    // change the simulation time
-    timeKeeper->SetSimulationTime(nextTime);
+      // change the simulation time
+      if (duration > 0) {
+        timeKeeper->SetSimulationTime(nextTime);
+      }
+      break;
+    }
 
     // notify that simulation time has changed
     eventManager->Emit(::Smp::Services::IEventManager::SMP_PostSimTimeChangeId);
diff --git a/src/Xsmp/Services/XsmpScheduler.h b/src/Xsmp/Services/XsmpScheduler.h
index 7f9dd57..f5c3126 100644
--- a/src/Xsmp/Services/XsmpScheduler.h
+++ b/src/Xsmp/Services/XsmpScheduler.h
@@ -395,7 +395,7 @@ private:
   std::map<::Smp::Duration, EventList> _zulu_events_table;
 
   // Mapping between an EventId and internal data
-  mutable std::mutex _eventsMutex; // protection for _events, _immediate_events,
+  mutable std::recursive_mutex _eventsMutex; // protection for _events, _immediate_events,
                                    // _events_table and _lastEventId
   // scheduling table for simu/epoch/mission time events
   std::map<::Smp::Duration, EventList> _events_table;
@@ -411,8 +411,8 @@ private:
   bool _currentEventMoved{};
   std::condition_variable _zuluCv;
 
-  std::condition_variable _holdCv;
-  std::mutex _holdMutex;
+  // notified when hold is requested or when an event is posted
+  std::condition_variable_any _holdCv;
 
   enum class Status { Running, Hold };
   std::atomic<double> _targetSpeed{100.};
@@ -473,7 +473,7 @@ private:
   /// @param eventId the event id to execute
   /// @param lck the lock on _eventsMutex, released during the execution
   void Execute(::Smp::Services::EventId eventId,
-               std::unique_lock<std::mutex> &lck);
+               std::unique_lock<std::recursive_mutex> &lck);
 
   /// Execute the first Zulu event whose time has come
   void ExecuteZulu();
-- 
2.43.0


From 5c066d6c3e0f67b43bed5dabf7b00ec5889762a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:28 +0000
Subject: [PATCH 57/93] fix: saturate event times beyond the representable
 simulation times

---
 src/Xsmp/Services/XsmpScheduler.cpp | 53 ++++++++++++++++++++++-------
 1 file changed, 41 insertions(+), 12 deletions(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index 89391bb..7c543a1 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -66,6 +66,24 @@ template <> struct Helper<::Xsmp::Services::XsmpScheduler::Event> {
 namespace Xsmp::Services {
 static constexpr ::Smp::Duration MaxDuration =
     std::numeric_limits<::Smp::Duration>::max();
+namespace {
+/// saturating addition
+::Smp::Duration Add(::Smp::Duration a, ::Smp::Duration b) {
+  constexpr auto min = std::numeric_limits<::Smp::Duration>::min();
+  if (b > 0) {
+    return a > MaxDuration - b ? MaxDuration : a + b;
+  }
+  return a < min - b ? min : a + b;
+}
+/// saturating subtraction
+::Smp::Duration Subtract(::Smp::Duration a, ::Smp::Duration b) {
+  constexpr auto min = std::numeric_limits<::Smp::Duration>::min();
+  if (b > 0) {
+    return a < min + b ? min : a - b;
+  }
+  return a > MaxDuration + b ? MaxDuration : a - b;
+}
+} // namespace
 
 XsmpScheduler::XsmpScheduler(::Smp::String8 name, ::Smp::String8 description,
                              ::Smp::IComposite *parent,
@@ -176,8 +194,7 @@ XsmpScheduler::AddEvent(const ::Smp::IEntryPoint *entryPoint,
 
   const std::scoped_lock lck{_eventsMutex};
   const ::Smp::Duration time =
-      GetSimulator()->GetTimeKeeper()->GetSimulationTime() +
-      simulationTime; // TODO check overflow
+      Add(GetSimulator()->GetTimeKeeper()->GetSimulationTime(), simulationTime);
   return AddEvent(entryPoint, time, time, cycleTime, repeat,
                   ::Smp::Services::TimeKind::TK_SimulationTime);
 }
@@ -188,8 +205,9 @@ XsmpScheduler::AddEvent(const ::Smp::IEntryPoint *entryPoint,
 
   const std::scoped_lock lck{_eventsMutex};
   auto simulationTime =
-      GetSimulator()->GetTimeKeeper()->GetSimulationTime() + missionTime -
-      GetSimulator()->GetTimeKeeper()->GetMissionTime(); // TODO check overflow
+      Add(GetSimulator()->GetTimeKeeper()->GetSimulationTime(),
+          Subtract(missionTime,
+                   GetSimulator()->GetTimeKeeper()->GetMissionTime()));
 
   return AddEvent(entryPoint, simulationTime, missionTime, cycleTime, repeat,
                   ::Smp::Services::TimeKind::TK_MissionTime);
@@ -201,8 +219,8 @@ XsmpScheduler::AddEvent(const ::Smp::IEntryPoint *entryPoint,
 
   const std::scoped_lock lck{_eventsMutex};
   auto simulationTime =
-      GetSimulator()->GetTimeKeeper()->GetSimulationTime() + epochTime -
-      GetSimulator()->GetTimeKeeper()->GetEpochTime(); // TODO check overflow
+      Add(GetSimulator()->GetTimeKeeper()->GetSimulationTime(),
+          Subtract(epochTime, GetSimulator()->GetTimeKeeper()->GetEpochTime()));
 
   return AddEvent(entryPoint, simulationTime, epochTime, cycleTime, repeat,
                   ::Smp::Services::TimeKind::TK_EpochTime);
@@ -295,7 +313,7 @@ void XsmpScheduler::SetEventSimulationTime(::Smp::Services::EventId event,
 
   const std::scoped_lock lck{_eventsMutex};
   const ::Smp::Duration time =
-      GetSimulator()->GetTimeKeeper()->GetSimulationTime() + simulationTime;
+      Add(GetSimulator()->GetTimeKeeper()->GetSimulationTime(), simulationTime);
   SetEventTime(event, time, time, ::Smp::Services::TimeKind::TK_SimulationTime);
 }
 
@@ -303,8 +321,9 @@ void XsmpScheduler::SetEventMissionTime(::Smp::Services::EventId event,
                                         ::Smp::Duration missionTime) {
   const std::scoped_lock lck{_eventsMutex};
   const ::Smp::Duration simulationTime =
-      GetSimulator()->GetTimeKeeper()->GetSimulationTime() + missionTime -
-      GetSimulator()->GetTimeKeeper()->GetMissionTime();
+      Add(GetSimulator()->GetTimeKeeper()->GetSimulationTime(),
+          Subtract(missionTime,
+                   GetSimulator()->GetTimeKeeper()->GetMissionTime()));
   SetEventTime(event, simulationTime, missionTime,
                ::Smp::Services::TimeKind::TK_MissionTime);
 }
@@ -313,8 +332,8 @@ void XsmpScheduler::SetEventEpochTime(::Smp::Services::EventId event,
                                       ::Smp::DateTime epochTime) {
   const std::scoped_lock lck{_eventsMutex};
   const ::Smp::Duration simulationTime =
-      GetSimulator()->GetTimeKeeper()->GetSimulationTime() + epochTime -
-      GetSimulator()->GetTimeKeeper()->GetEpochTime();
+      Add(GetSimulator()->GetTimeKeeper()->GetSimulationTime(),
+          Subtract(epochTime, GetSimulator()->GetTimeKeeper()->GetEpochTime()));
   SetEventTime(event, simulationTime, epochTime,
                ::Smp::Services::TimeKind::TK_EpochTime);
 }
@@ -458,9 +477,14 @@ void XsmpScheduler::Execute(::Smp::Services::EventId eventId,
       // the event is already posted in the table
       return;
     }
+    if (event.nextScheduleSimulationTime > MaxDuration - event.cycleTime) {
+      // the end of time is reached
+      _events.erase(eventId);
+      return;
+    }
     // compute the next time the event will be executed
     event.nextScheduleSimulationTime += event.cycleTime;
-    event.time += event.cycleTime;
+    event.time = Add(event.time, event.cycleTime);
 
     // post the event in the table
     _events_table.try_emplace(event.nextScheduleSimulationTime)
@@ -519,6 +543,11 @@ void XsmpScheduler::ExecuteZulu() {
       // the event is already posted in the table
       return;
     }
+    if (event.nextScheduleSimulationTime > MaxDuration - event.cycleTime) {
+      // the end of time is reached
+      _events.erase(eventId);
+      return;
+    }
     // compute the next time the event will be executed
     event.nextScheduleSimulationTime += event.cycleTime;
     // post the event in the table
-- 
2.43.0


From 92f11283dcdcb75e5ea52ee73f335cfff7459bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:55 +0000
Subject: [PATCH 58/93] fix: execute mission and epoch time events when that
 clock shows their time

---
 src/Xsmp/Services/XsmpScheduler.cpp | 124 ++++++++++++++++++++++------
 src/Xsmp/Services/XsmpScheduler.h   |  17 ++++
 2 files changed, 114 insertions(+), 27 deletions(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index 7c543a1..b36c334 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -297,6 +297,79 @@ XsmpScheduler::TakeFirst(std::map<::Smp::Duration, EventList> &table,
   return eventId;
 }
 
+bool XsmpScheduler::UpdateTime(Event &event) const {
+  const auto *timeKeeper = GetSimulator()->GetTimeKeeper();
+  ::Smp::Duration currentTime = 0;
+  switch (event.kind) {
+  case ::Smp::Services::TimeKind::TK_MissionTime:
+    currentTime = timeKeeper->GetMissionTime();
+    break;
+  case ::Smp::Services::TimeKind::TK_EpochTime:
+    currentTime = timeKeeper->GetEpochTime();
+    break;
+  default:
+    return true;
+  }
+  if (event.time < currentTime) {
+    // skip the occurrences in the past
+    if (event.repeat == 0) {
+      return false;
+    }
+    const auto elapsed = Subtract(currentTime, event.time);
+    const auto skipped = (elapsed - 1) / event.cycleTime + 1;
+    if (event.repeat > 0) {
+      if (event.repeat < skipped) {
+        return false;
+      }
+      event.repeat -= skipped;
+    }
+    if (const auto remainder = elapsed % event.cycleTime; remainder != 0) {
+      event.time = Add(currentTime, event.cycleTime - remainder);
+    } else {
+      event.time = currentTime;
+    }
+  }
+  event.nextScheduleSimulationTime =
+      Add(timeKeeper->GetSimulationTime(), Subtract(event.time, currentTime));
+  return true;
+}
+
+bool XsmpScheduler::IsTimeChanged() const {
+  const auto *timeKeeper = GetSimulator()->GetTimeKeeper();
+  const auto simulationTime = timeKeeper->GetSimulationTime();
+  return _missionTimeOffset !=
+             Subtract(timeKeeper->GetMissionTime(), simulationTime) ||
+         _epochTimeOffset !=
+             Subtract(timeKeeper->GetEpochTime(), simulationTime);
+}
+
+void XsmpScheduler::UpdateTimes() {
+  if (!IsTimeChanged()) {
+    return;
+  }
+  const auto *timeKeeper = GetSimulator()->GetTimeKeeper();
+  const auto simulationTime = timeKeeper->GetSimulationTime();
+  _missionTimeOffset = Subtract(timeKeeper->GetMissionTime(), simulationTime);
+  _epochTimeOffset = Subtract(timeKeeper->GetEpochTime(), simulationTime);
+
+  for (auto it = _events.begin(); it != _events.end();) {
+    auto &[eventId, event] = *it;
+    if (event.kind != ::Smp::Services::TimeKind::TK_MissionTime &&
+        event.kind != ::Smp::Services::TimeKind::TK_EpochTime) {
+      ++it;
+      continue;
+    }
+    Unschedule(_events_table, event.nextScheduleSimulationTime, eventId);
+    if (UpdateTime(event)) {
+      _events_table.try_emplace(event.nextScheduleSimulationTime)
+          .first->second.emplace(eventId);
+      ++it;
+    } else {
+      it = _events.erase(it);
+    }
+  }
+}
+
 void XsmpScheduler::Unschedule(std::map<::Smp::Duration, EventList> &table,
                                ::Smp::Duration time,
                                ::Smp::Services::EventId eventId) {
@@ -423,6 +496,17 @@ void XsmpScheduler::RemoveEvent(::Smp::Services::EventId event) {
 
 ::Smp::Duration XsmpScheduler::GetNextScheduledEventTime() const {
   const std::scoped_lock lck{_eventsMutex};
+  if (IsTimeChanged()) {
+    auto next = std::numeric_limits<::Smp::Duration>::max();
+    for (const auto &[time, events] : _events_table) {
+      for (auto eventId : events) {
+        if (auto event = _events.at(eventId); UpdateTime(event)) {
+          next = std::min(next, event.nextScheduleSimulationTime);
+        }
+      }
+    }
+    return next;
+  }
   if (_events_table.begin() != _events_table.end()) {
     return _events_table.begin()->first;
   }
@@ -434,33 +518,17 @@ void XsmpScheduler::Execute(::Smp::Services::EventId eventId,
 
   auto &event = _events.at(eventId);
 
-  // skip event if epoch/mission time has changed and event is in the past
-  bool skip = false;
-  switch (event.kind) {
-  case ::Smp::Services::TimeKind::TK_EpochTime:
-    skip = event.time < GetSimulator()->GetTimeKeeper()->GetEpochTime();
-    break;
-  case ::Smp::Services::TimeKind::TK_MissionTime:
-    skip = event.time < GetSimulator()->GetTimeKeeper()->GetMissionTime();
-    break;
-  default:
-    break;
-  }
-
-  bool moved = false;
-  if (!skip) {
-    _currentEventId = eventId;
-    _currentEventMoved = false;
-    const auto *entryPoint = event.entryPoint;
-    lck.unlock();
-    ::Xsmp::Helper::SafeExecute(GetSimulator(), entryPoint);
-    lck.lock();
-    _currentEventId = -1;
-    moved = _currentEventMoved;
-    if (_events.find(eventId) == _events.end()) {
-      // the event has been removed during its own execution
-      return;
-    }
+  _currentEventId = eventId;
+  _currentEventMoved = false;
+  const auto *entryPoint = event.entryPoint;
+  lck.unlock();
+  ::Xsmp::Helper::SafeExecute(GetSimulator(), entryPoint);
+  lck.lock();
+  _currentEventId = -1;
+  const bool moved = _currentEventMoved;
+  if (_events.find(eventId) == _events.end()) {
+    // the event has been removed during its own execution
+    return;
   }
 
   if (event.repeat == 0) {
@@ -568,6 +636,7 @@ bool XsmpScheduler::ExecuteEvents() {
       if (_simulationStatus == Status::Hold) {
         return false;
       }
+      UpdateTimes();
       const auto eventId =
           TakeFirst(_events_table, timeKeeper->GetSimulationTime());
       if (eventId == -1) {
@@ -694,6 +763,7 @@ void XsmpScheduler::_EnterExecuting() {
         continue;
       }
       // the next event may have changed when notifying or waiting
+      UpdateTimes();
       const auto nextTime = GetNextScheduledEventTime();
       auto duration = nextTime - timeKeeper->GetSimulationTime();
       auto endZuluTime = timeKeeper->GetZuluTime();
diff --git a/src/Xsmp/Services/XsmpScheduler.h b/src/Xsmp/Services/XsmpScheduler.h
index f5c3126..dbee2db 100644
--- a/src/Xsmp/Services/XsmpScheduler.h
+++ b/src/Xsmp/Services/XsmpScheduler.h
@@ -400,6 +400,10 @@ private:
   // scheduling table for simu/epoch/mission time events
   std::map<::Smp::Duration, EventList> _events_table;
 
+  // offsets to the simulation time _events_table has been computed with
+  ::Smp::Duration _missionTimeOffset{};
+  ::Smp::Duration _epochTimeOffset{};
+
   // immediate events  table
   EventList _immediate_events;
   std::map<::Smp::Services::EventId, Event> _events;
@@ -462,6 +466,19 @@ private:
                          ::Smp::Duration time,
                          ::Smp::Services::EventId eventId);
 
+  /// Compute the scheduled simulation time of an event from the current mission
+  /// or epoch time. Occurrences in the past are skipped.
+  /// @param event the event to update
+  /// @return false if all the occurrences of the event are in the past
+  bool UpdateTime(Event &event) const;
+
+  /// Re-schedule the mission and epoch time events if the mission or epoch time
+  /// has been changed
+  void UpdateTimes();
+
+  /// Check if the mission or epoch time has been changed
+  bool IsTimeChanged() const;
+
   /// Remove the first event of a scheduling table
   /// @param table the scheduling table
   /// @param time the time up to which events are removed
-- 
2.43.0


From 29eef11dd0fc37fbba42eef68d1900b8c2e943ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:55 +0000
Subject: [PATCH 59/93] fix: do not miss a hold requested while the scheduler
 starts executing

---
 src/Xsmp/Services/XsmpScheduler.cpp | 9 +++++++--
 src/Xsmp/Services/XsmpScheduler.h   | 5 ++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index b36c334..80d50a7 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -728,12 +728,17 @@ void XsmpScheduler::_LeaveExecuting() {
 }
 
 void XsmpScheduler::_EnterExecuting() {
+  ExecuteUntilHold();
+  // ready for next execution. Not done when starting to not miss a hold that is
+  // requested in the meantime
+  _simulationStatus = Status::Running;
+}
+
+void XsmpScheduler::ExecuteUntilHold() {
 
   auto *timeKeeper = GetSimulator()->GetTimeKeeper();
   auto startZuluTime = timeKeeper->GetZuluTime();
 
-  _simulationStatus = Status::Running;
-
   _load.clear();
   _speed.clear();
 
diff --git a/src/Xsmp/Services/XsmpScheduler.h b/src/Xsmp/Services/XsmpScheduler.h
index dbee2db..19763f0 100644
--- a/src/Xsmp/Services/XsmpScheduler.h
+++ b/src/Xsmp/Services/XsmpScheduler.h
@@ -420,7 +420,7 @@ private:
 
   enum class Status { Running, Hold };
   std::atomic<double> _targetSpeed{100.};
-  std::atomic<Status> _simulationStatus;
+  std::atomic<Status> _simulationStatus{Status::Running};
   bool _terminate{};
 
   std::mutex _execMutex;
@@ -495,6 +495,9 @@ private:
   /// Execute the first Zulu event whose time has come
   void ExecuteZulu();
 
+  /// Execute all events until hold is requested
+  void ExecuteUntilHold();
+
   /// Execute all events scheduled up to the current simulation time
   /// @return true if all events have been executed, false if hold immediate is
   /// requested and we have to exit
-- 
2.43.0


From eeb9958070e4601acaaa6aa6294a6746e9df6b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:55 +0000
Subject: [PATCH 60/93] fix: keep the Zulu events of a restored simulation

---
 src/Xsmp/Services/XsmpScheduler.cpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index 80d50a7..a19ffc6 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -524,9 +524,10 @@ void XsmpScheduler::Execute(::Smp::Services::EventId eventId,
   lck.unlock();
   ::Xsmp::Helper::SafeExecute(GetSimulator(), entryPoint);
   lck.lock();
+  const bool restored = _currentEventId != eventId;
   _currentEventId = -1;
   const bool moved = _currentEventMoved;
-  if (_events.find(eventId) == _events.end()) {
+  if (restored || _events.find(eventId) == _events.end()) {
     // the event has been removed during its own execution
     return;
   }
@@ -589,9 +590,10 @@ void XsmpScheduler::ExecuteZulu() {
     lck.unlock();
     ::Xsmp::Helper::SafeExecute(GetSimulator(), entryPoint);
     lck.lock();
+    const bool restored = _currentEventId != eventId;
     _currentEventId = -1;
     moved = _currentEventMoved;
-    if (_events.find(eventId) == _events.end()) {
+    if (restored || _events.find(eventId) == _events.end()) {
       // the event has been removed during its own execution
       return;
     }
@@ -708,9 +710,21 @@ void XsmpScheduler::InternalZuluRun() {
 }
 
 void XsmpScheduler::Restore(::Smp::IStorageReader *reader) {
-  const std::scoped_lock lck{_eventsMutex};
-  ::Xsmp::Persist::Restore(GetSimulator(), this, reader, _events, _events_table,
-                           _immediate_events, _lastEventId);
+  {
+    const std::scoped_lock lck{_eventsMutex, _zuluEventsTableMutex};
+    ::Xsmp::Persist::Restore(GetSimulator(), this, reader, _events,
+                             _events_table, _immediate_events, _lastEventId);
+    // the event that is being executed, if any, is not the restored one
+    _currentEventId = -1;
+    _zulu_events_table.clear();
+    for (const auto &[eventId, event] : _events) {
+      if (event.kind == ::Smp::Services::TimeKind::TK_ZuluTime) {
+        _zulu_events_table.try_emplace(event.nextScheduleSimulationTime)
+            .first->second.emplace(eventId);
+      }
+    }
+  }
+  _zuluCv.notify_one();
 }
 
 void XsmpScheduler::Store(::Smp::IStorageWriter *writer) {
-- 
2.43.0


From f6e5394a78a77ef34408f2281001bdf79da7d3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:55 +0000
Subject: [PATCH 61/93] fix: let a Zulu event exit the simulation

---
 src/Xsmp/Services/XsmpScheduler.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index a19ffc6..0226f67 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -120,14 +120,12 @@ void XsmpScheduler::DoDisconnect() {
   // stop the zulu thread
   {
     const std::scoped_lock lck{_zuluEventsTableMutex};
-    // if already terminated do nothing
-    if (_terminate) {
-      return;
-    }
     _terminate = true;
   }
   _zuluCv.notify_one();
-  if (_zuluThread.joinable()) {
+  // when called by a Zulu event, the thread is joined by the destructor
+  if (_zuluThread.joinable() &&
+      _zuluThread.get_id() != std::this_thread::get_id()) {
     _zuluThread.join();
   }
 }
-- 
2.43.0


From 7b364fd3bfbab8a48a25bb154e5c921de5e510da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:39 +0000
Subject: [PATCH 62/93] fix: make the state of the simulator readable by other
 threads

---
 src/Xsmp/Simulator.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Simulator.h b/src/Xsmp/Simulator.h
index 689db34..f58291f 100644
--- a/src/Xsmp/Simulator.h
+++ b/src/Xsmp/Simulator.h
@@ -29,6 +29,7 @@
 #include <Xsmp/Publication/Publication.h>
 #include <Xsmp/Publication/TypeRegistry.h>
 #include <Xsmp/cstring.h>
+#include <atomic>
 #include <list>
 #include <utility>
 #include <vector>
@@ -380,7 +381,7 @@ private:
 
   std::vector<std::pair<std::string, void *>> _libraries;
 
-  ::Smp::Services::EventId _lastGlobalEventId = -1;
+  std::atomic<::Smp::Services::EventId> _lastGlobalEventId{-1};
 
   Container<::Smp::IService> _services;
   Container<::Smp::IModel> _models;
@@ -402,7 +403,8 @@ private:
   ::Smp::Services::ILogger *_logger = nullptr;
 
   mutable ::Xsmp::Publication::TypeRegistry _typeRegistry;
-  ::Smp::SimulatorStateKind _state = ::Smp::SimulatorStateKind::SSK_Building;
+  std::atomic<::Smp::SimulatorStateKind> _state{
+      ::Smp::SimulatorStateKind::SSK_Building};
 };
 
 } // namespace Xsmp
-- 
2.43.0


From b0538b22853de272b7f30573574ce0640e488ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:39 +0000
Subject: [PATCH 63/93] fix: keep an aborted simulation aborted and announce it
 once

---
 src/Xsmp/Simulator.cpp | 133 ++++++++++++++++++++++++-----------------
 src/Xsmp/Simulator.h   |  10 ++++
 2 files changed, 87 insertions(+), 56 deletions(-)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index 550c0aa..cfa2cca 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -228,10 +228,11 @@ void Simulator::Connect() {
     }
   });
 
-  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveConnectingId);
-
-  _state = ::Smp::SimulatorStateKind::SSK_Initialising;
-  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterInitialisingId);
+  if (!ChangeState(::Smp::Services::IEventManager::SMP_LeaveConnectingId,
+                   ::Smp::SimulatorStateKind::SSK_Initialising,
+                   ::Smp::Services::IEventManager::SMP_EnterInitialisingId)) {
+    return;
+  }
 
   std::vector<::Smp::IEntryPoint *> entryPoints;
   entryPoints.swap(_initEntryPoints);
@@ -239,18 +240,36 @@ void Simulator::Connect() {
     entryPoint->Execute();
   }
 
-  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveInitialisingId);
-
-  _state = ::Smp::SimulatorStateKind::SSK_Standby;
-  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
+  ChangeState(::Smp::Services::IEventManager::SMP_LeaveInitialisingId,
+              ::Smp::SimulatorStateKind::SSK_Standby,
+              ::Smp::Services::IEventManager::SMP_EnterStandbyId);
 }
 
 void Simulator::EmitGlobalEvent(::Smp::Services::EventId eventId) {
-  _lastGlobalEventId = eventId;
+  const auto previousEventId = _lastGlobalEventId.exchange(eventId);
   if (_eventManager) {
     _eventManager->Emit(eventId);
   }
-  _lastGlobalEventId = -1;
+  _lastGlobalEventId = previousEventId;
+}
+
+bool Simulator::ChangeState(::Smp::Services::EventId leaveEventId,
+                            ::Smp::SimulatorStateKind state,
+                            ::Smp::Services::EventId enterEventId) {
+  if (_state == ::Smp::SimulatorStateKind::SSK_Aborting) {
+    return false;
+  }
+  EmitGlobalEvent(leaveEventId);
+
+  auto currentState = _state.load();
+  do {
+    if (currentState == ::Smp::SimulatorStateKind::SSK_Aborting) {
+      return false;
+    }
+  } while (!_state.compare_exchange_weak(currentState, state));
+
+  EmitGlobalEvent(enterEventId);
+  return _state != ::Smp::SimulatorStateKind::SSK_Aborting;
 }
 
 void Simulator::Initialise() {
@@ -266,20 +285,20 @@ void Simulator::Initialise() {
     }
     return;
   }
-  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStandbyId);
-
-  _state = ::Smp::SimulatorStateKind::SSK_Initialising;
-  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterInitialisingId);
+  if (!ChangeState(::Smp::Services::IEventManager::SMP_LeaveStandbyId,
+                   ::Smp::SimulatorStateKind::SSK_Initialising,
+                   ::Smp::Services::IEventManager::SMP_EnterInitialisingId)) {
+    return;
+  }
 
   std::vector<::Smp::IEntryPoint *> entryPoints;
   entryPoints.swap(_initEntryPoints);
   for (auto const *entryPoint : entryPoints) {
     entryPoint->Execute();
   }
-  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveInitialisingId);
-
-  _state = ::Smp::SimulatorStateKind::SSK_Standby;
-  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
+  ChangeState(::Smp::Services::IEventManager::SMP_LeaveInitialisingId,
+              ::Smp::SimulatorStateKind::SSK_Standby,
+              ::Smp::Services::IEventManager::SMP_EnterStandbyId);
 }
 void Simulator::Run() {
 
@@ -296,11 +315,9 @@ void Simulator::Run() {
     }
     return;
   }
-  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStandbyId);
-
-  _state = ::Smp::SimulatorStateKind::SSK_Executing;
-
-  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterExecutingId);
+  ChangeState(::Smp::Services::IEventManager::SMP_LeaveStandbyId,
+              ::Smp::SimulatorStateKind::SSK_Executing,
+              ::Smp::Services::IEventManager::SMP_EnterExecutingId);
 }
 
 void Simulator::Run(::Smp::Duration duration) {
@@ -343,12 +360,9 @@ void Simulator::Hold(::Smp::Bool immediate) {
   }
 
   if (immediate) {
-
-    EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveExecutingId);
-
-    _state = ::Smp::SimulatorStateKind::SSK_Standby;
-
-    EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
+    ChangeState(::Smp::Services::IEventManager::SMP_LeaveExecutingId,
+                ::Smp::SimulatorStateKind::SSK_Standby,
+                ::Smp::Services::IEventManager::SMP_EnterStandbyId);
   } else {
     if (_eventManager) {
       _eventManager->Subscribe(
@@ -404,20 +418,19 @@ void Simulator::Store(::Smp::String8 filename) {
     }
     return;
   }
-  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStandbyId);
-
-  _state = ::Smp::SimulatorStateKind::SSK_Storing;
-
-  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStoringId);
+  if (!ChangeState(::Smp::Services::IEventManager::SMP_LeaveStandbyId,
+                   ::Smp::SimulatorStateKind::SSK_Storing,
+                   ::Smp::Services::IEventManager::SMP_EnterStoringId)) {
+    return;
+  }
 
   StorageWriter writer{filename, PERSIST_FILENAME, this};
 
   ::Xsmp::Store(this, &writer);
 
-  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStoringId);
-  _state = ::Smp::SimulatorStateKind::SSK_Standby;
-
-  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
+  ChangeState(::Smp::Services::IEventManager::SMP_LeaveStoringId,
+              ::Smp::SimulatorStateKind::SSK_Standby,
+              ::Smp::Services::IEventManager::SMP_EnterStandbyId);
 }
 namespace {
 void check(const ::Smp::IObject *obj, ::Smp::IStorageReader *reader,
@@ -468,18 +481,18 @@ void Simulator::Restore(::Smp::String8 filename) {
     }
     return;
   }
-  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStandbyId);
-
-  _state = ::Smp::SimulatorStateKind::SSK_Restoring;
-  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterRestoringId);
+  if (!ChangeState(::Smp::Services::IEventManager::SMP_LeaveStandbyId,
+                   ::Smp::SimulatorStateKind::SSK_Restoring,
+                   ::Smp::Services::IEventManager::SMP_EnterRestoringId)) {
+    return;
+  }
   StorageReader reader{filename, PERSIST_FILENAME, this};
 
   ::Xsmp::Restore(this, &reader);
 
-  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveRestoringId);
-  _state = ::Smp::SimulatorStateKind::SSK_Standby;
-
-  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
+  ChangeState(::Smp::Services::IEventManager::SMP_LeaveRestoringId,
+              ::Smp::SimulatorStateKind::SSK_Standby,
+              ::Smp::Services::IEventManager::SMP_EnterStandbyId);
 }
 
 void Simulator::Reconnect(::Smp::IComponent *root) {
@@ -495,9 +508,11 @@ void Simulator::Reconnect(::Smp::IComponent *root) {
     }
     return;
   }
-  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStandbyId);
-  _state = ::Smp::SimulatorStateKind::SSK_Reconnecting;
-  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterReconnectingId);
+  if (!ChangeState(::Smp::Services::IEventManager::SMP_LeaveStandbyId,
+                   ::Smp::SimulatorStateKind::SSK_Reconnecting,
+                   ::Smp::Services::IEventManager::SMP_EnterReconnectingId)) {
+    return;
+  }
 
   if (auto const *composite = dynamic_cast<::Smp::IComposite *>(root)) {
     recursive_action(composite, [this](::Smp::IComponent *cmp) {
@@ -512,8 +527,10 @@ void Simulator::Reconnect(::Smp::IComponent *root) {
       }
     });
   }
-  _state = ::Smp::SimulatorStateKind::SSK_Standby;
-  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterStandbyId);
+  // announce that the Reconnecting state is left
+  ChangeState(::Smp::Services::IEventManager::SMP_LeaveReconnectingId,
+              ::Smp::SimulatorStateKind::SSK_Standby,
+              ::Smp::Services::IEventManager::SMP_EnterStandbyId);
 }
 
 void Simulator::Exit() {
@@ -530,9 +547,11 @@ void Simulator::Exit() {
     return;
   }
 
-  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_LeaveStandbyId);
-  _state = ::Smp::SimulatorStateKind::SSK_Exiting;
-  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterExitingId);
+  if (!ChangeState(::Smp::Services::IEventManager::SMP_LeaveStandbyId,
+                   ::Smp::SimulatorStateKind::SSK_Exiting,
+                   ::Smp::Services::IEventManager::SMP_EnterExitingId)) {
+    return;
+  }
 
   // Disconnect all components properly
   recursive_action(this, [](::Smp::IComponent *cmp) {
@@ -544,8 +563,10 @@ void Simulator::Exit() {
 
 void Simulator::Abort() {
 
-  EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterAbortingId);
-  _state = ::Smp::SimulatorStateKind::SSK_Aborting;
+  if (_state.exchange(::Smp::SimulatorStateKind::SSK_Aborting) !=
+      ::Smp::SimulatorStateKind::SSK_Aborting) {
+    EmitGlobalEvent(::Smp::Services::IEventManager::SMP_EnterAbortingId);
+  }
 }
 
 ::Smp::SimulatorStateKind Simulator::GetState() const { return _state; }
diff --git a/src/Xsmp/Simulator.h b/src/Xsmp/Simulator.h
index f58291f..b7a9a5f 100644
--- a/src/Xsmp/Simulator.h
+++ b/src/Xsmp/Simulator.h
@@ -381,6 +381,16 @@ private:
 
   std::vector<std::pair<std::string, void *>> _libraries;
 
+  /// Leave the current state and enter another one, unless the simulation is
+  /// aborted
+  /// @param leaveEventId the global event emitted before leaving the state
+  /// @param state the state to enter
+  /// @param enterEventId the global event emitted after entering the state
+  /// @return false if the simulation is aborted
+  bool ChangeState(::Smp::Services::EventId leaveEventId,
+                   ::Smp::SimulatorStateKind state,
+                   ::Smp::Services::EventId enterEventId);
+
   std::atomic<::Smp::Services::EventId> _lastGlobalEventId{-1};
 
   Container<::Smp::IService> _services;
-- 
2.43.0


From 5e9a96cd743d34212d5bb908a8ac02e357373a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:53 +0000
Subject: [PATCH 64/93] fix: forget the pending holds of a simulation on hold

---
 src/Xsmp/Simulator.cpp | 31 ++++++++++++++++++++-----------
 src/Xsmp/Simulator.h   |  5 +++++
 2 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index cfa2cca..e393b43 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -65,12 +65,13 @@ Simulator::Simulator(::Smp::String8 name, ::Smp::String8 description)
       // Hold Immediately Entry Point
       _holdImmediately{
           "HoldImmediately", "", this,
-          [this] {
-            this->_eventManager->Unsubscribe(
-                ::Smp::Services::IEventManager::SMP_PreSimTimeChangeId,
-                &_holdImmediately);
-            this->Hold(true);
-          }},
+          [this] { this->Hold(true); }},
+      _holdAfterDuration{"hold",
+                         "call simulator hold after the specified duration",
+                         this, [this] {
+                           this->_holdAfterDurationId = -1;
+                           this->Hold(false);
+                         }},
       // initialize the Type Registry
       _typeRegistry{this} {}
 
@@ -336,11 +337,9 @@ void Simulator::Run(::Smp::Duration duration) {
     return;
   }
 
-  ::Xsmp::EntryPoint hold{"hold",
-                          "call simulator hold after the specified duration",
-                          this, [this] { this->Hold(false); }};
   if (_scheduler) {
-    _scheduler->AddSimulationTimeEvent(&hold, duration);
+    _holdAfterDurationId =
+        _scheduler->AddSimulationTimeEvent(&_holdAfterDuration, duration);
   }
   Run();
 }
@@ -360,11 +359,21 @@ void Simulator::Hold(::Smp::Bool immediate) {
   }
 
   if (immediate) {
+
+    // forget the other pending requests to hold
+    if (_holdPending.exchange(false)) {
+      _eventManager->Unsubscribe(
+          ::Smp::Services::IEventManager::SMP_PreSimTimeChangeId,
+          &_holdImmediately);
+    }
+    if (const auto eventId = _holdAfterDurationId.exchange(-1); eventId != -1) {
+      _scheduler->RemoveEvent(eventId);
+    }
     ChangeState(::Smp::Services::IEventManager::SMP_LeaveExecutingId,
                 ::Smp::SimulatorStateKind::SSK_Standby,
                 ::Smp::Services::IEventManager::SMP_EnterStandbyId);
   } else {
-    if (_eventManager) {
+    if (_eventManager && !_holdPending.exchange(true)) {
       _eventManager->Subscribe(
           ::Smp::Services::IEventManager::SMP_PreSimTimeChangeId,
           &_holdImmediately);
diff --git a/src/Xsmp/Simulator.h b/src/Xsmp/Simulator.h
index b7a9a5f..8e36d88 100644
--- a/src/Xsmp/Simulator.h
+++ b/src/Xsmp/Simulator.h
@@ -403,6 +403,11 @@ private:
   FactoryCollection _factories;
 
   ::Xsmp::EntryPoint _holdImmediately;
+  // true if _holdImmediately is subscribed to SMP_PreSimTimeChange
+  std::atomic<bool> _holdPending{false};
+  // hold after the duration given to Run
+  ::Xsmp::EntryPoint _holdAfterDuration;
+  std::atomic<::Smp::Services::EventId> _holdAfterDurationId{-1};
 
   // standard services
   ::Smp::Services::ILinkRegistry *_linkRegistry = nullptr;
-- 
2.43.0


From 72876a77f1226ccfe607e273fe2581907fbfd8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:53 +0000
Subject: [PATCH 65/93] fix: reconnect the given component too

---
 src/Xsmp/Simulator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index e393b43..369db03 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -523,8 +523,8 @@ void Simulator::Reconnect(::Smp::IComponent *root) {
     return;
   }
 
-  if (auto const *composite = dynamic_cast<::Smp::IComposite *>(root)) {
-    recursive_action(composite, [this](::Smp::IComponent *cmp) {
+  if (root) {
+    recursive_action(root, [this](::Smp::IComponent *cmp) {
       if (cmp->GetState() == ::Smp::ComponentStateKind::CSK_Created) {
         cmp->Publish(CreatePublication(cmp));
       }
-- 
2.43.0


From 90953cd16537a91bdae44c5cadc954375589d1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:53 +0000
Subject: [PATCH 66/93] fix: store and restore the components of the containers

---
 src/Xsmp/Simulator.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index 369db03..eb90d9d 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -407,7 +407,11 @@ void Store(::Smp::IObject *obj, ::Smp::IStorageWriter *writer) {
     if (composite->GetContainers()) {
       for (auto *container : *composite->GetContainers()) {
         writer->Store(&kind, sizeof(PersistKind));
-        Store(container, writer);
+        if (const auto *components = container->GetComponents()) {
+          for (auto *child : *components) {
+            Store(child, writer);
+          }
+        }
       }
     }
   }
@@ -471,7 +475,11 @@ void Restore(::Smp::IObject *obj, ::Smp::IStorageReader *reader) {
     if (composite->GetContainers()) {
       for (auto *container : *composite->GetContainers()) {
         check(obj, reader, PersistKind::CONTAINER);
-        Restore(container, reader);
+        if (const auto *components = container->GetComponents()) {
+          for (auto *child : *components) {
+            Restore(child, reader);
+          }
+        }
       }
     }
   }
-- 
2.43.0


From 98acbce2f48e7173bc1161c7f34b4f96c0c576d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:53 +0000
Subject: [PATCH 67/93] fix: return to Standby when storing, restoring,
 reconnecting or initialising fails

---
 src/Xsmp/Simulator.cpp | 108 +++++++++++++++++++++++------------------
 src/Xsmp/Simulator.h   |   7 +++
 2 files changed, 69 insertions(+), 46 deletions(-)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index eb90d9d..9e2563f 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -235,15 +235,15 @@ void Simulator::Connect() {
     return;
   }
 
-  std::vector<::Smp::IEntryPoint *> entryPoints;
-  entryPoints.swap(_initEntryPoints);
-  for (auto const *entryPoint : entryPoints) {
-    entryPoint->Execute();
-  }
-
-  ChangeState(::Smp::Services::IEventManager::SMP_LeaveInitialisingId,
-              ::Smp::SimulatorStateKind::SSK_Standby,
-              ::Smp::Services::IEventManager::SMP_EnterStandbyId);
+  ActThenStandby(
+      [this] {
+        std::vector<::Smp::IEntryPoint *> entryPoints;
+        entryPoints.swap(_initEntryPoints);
+        for (auto const *entryPoint : entryPoints) {
+          entryPoint->Execute();
+        }
+      },
+      ::Smp::Services::IEventManager::SMP_LeaveInitialisingId);
 }
 
 void Simulator::EmitGlobalEvent(::Smp::Services::EventId eventId) {
@@ -273,6 +273,20 @@ bool Simulator::ChangeState(::Smp::Services::EventId leaveEventId,
   return _state != ::Smp::SimulatorStateKind::SSK_Aborting;
 }
 
+template <typename Action>
+void Simulator::ActThenStandby(Action &&action,
+                               ::Smp::Services::EventId leaveEventId) {
+  try {
+    action();
+  } catch (...) {
+    ChangeState(leaveEventId, ::Smp::SimulatorStateKind::SSK_Standby,
+                ::Smp::Services::IEventManager::SMP_EnterStandbyId);
+    throw;
+  }
+  ChangeState(leaveEventId, ::Smp::SimulatorStateKind::SSK_Standby,
+              ::Smp::Services::IEventManager::SMP_EnterStandbyId);
+}
+
 void Simulator::Initialise() {
 
   if (_state != ::Smp::SimulatorStateKind::SSK_Standby ||
@@ -292,14 +306,15 @@ void Simulator::Initialise() {
     return;
   }
 
-  std::vector<::Smp::IEntryPoint *> entryPoints;
-  entryPoints.swap(_initEntryPoints);
-  for (auto const *entryPoint : entryPoints) {
-    entryPoint->Execute();
-  }
-  ChangeState(::Smp::Services::IEventManager::SMP_LeaveInitialisingId,
-              ::Smp::SimulatorStateKind::SSK_Standby,
-              ::Smp::Services::IEventManager::SMP_EnterStandbyId);
+  ActThenStandby(
+      [this] {
+        std::vector<::Smp::IEntryPoint *> entryPoints;
+        entryPoints.swap(_initEntryPoints);
+        for (auto const *entryPoint : entryPoints) {
+          entryPoint->Execute();
+        }
+      },
+      ::Smp::Services::IEventManager::SMP_LeaveInitialisingId);
 }
 void Simulator::Run() {
 
@@ -437,13 +452,13 @@ void Simulator::Store(::Smp::String8 filename) {
     return;
   }
 
-  StorageWriter writer{filename, PERSIST_FILENAME, this};
-
-  ::Xsmp::Store(this, &writer);
+  ActThenStandby(
+      [this, filename] {
+        StorageWriter writer{filename, PERSIST_FILENAME, this};
 
-  ChangeState(::Smp::Services::IEventManager::SMP_LeaveStoringId,
-              ::Smp::SimulatorStateKind::SSK_Standby,
-              ::Smp::Services::IEventManager::SMP_EnterStandbyId);
+        ::Xsmp::Store(this, &writer);
+      },
+      ::Smp::Services::IEventManager::SMP_LeaveStoringId);
 }
 namespace {
 void check(const ::Smp::IObject *obj, ::Smp::IStorageReader *reader,
@@ -503,13 +518,13 @@ void Simulator::Restore(::Smp::String8 filename) {
                    ::Smp::Services::IEventManager::SMP_EnterRestoringId)) {
     return;
   }
-  StorageReader reader{filename, PERSIST_FILENAME, this};
-
-  ::Xsmp::Restore(this, &reader);
+  ActThenStandby(
+      [this, filename] {
+        StorageReader reader{filename, PERSIST_FILENAME, this};
 
-  ChangeState(::Smp::Services::IEventManager::SMP_LeaveRestoringId,
-              ::Smp::SimulatorStateKind::SSK_Standby,
-              ::Smp::Services::IEventManager::SMP_EnterStandbyId);
+        ::Xsmp::Restore(this, &reader);
+      },
+      ::Smp::Services::IEventManager::SMP_LeaveRestoringId);
 }
 
 void Simulator::Reconnect(::Smp::IComponent *root) {
@@ -531,23 +546,24 @@ void Simulator::Reconnect(::Smp::IComponent *root) {
     return;
   }
 
-  if (root) {
-    recursive_action(root, [this](::Smp::IComponent *cmp) {
-      if (cmp->GetState() == ::Smp::ComponentStateKind::CSK_Created) {
-        cmp->Publish(CreatePublication(cmp));
-      }
-      if (cmp->GetState() == ::Smp::ComponentStateKind::CSK_Publishing) {
-        cmp->Configure(_logger, _linkRegistry);
-      }
-      if (cmp->GetState() == ::Smp::ComponentStateKind::CSK_Configured) {
-        cmp->Connect(this);
-      }
-    });
-  }
-  // announce that the Reconnecting state is left
-  ChangeState(::Smp::Services::IEventManager::SMP_LeaveReconnectingId,
-              ::Smp::SimulatorStateKind::SSK_Standby,
-              ::Smp::Services::IEventManager::SMP_EnterStandbyId);
+  ActThenStandby(
+      [this, root] {
+        if (!root) {
+          return;
+        }
+        recursive_action(root, [this](::Smp::IComponent *cmp) {
+          if (cmp->GetState() == ::Smp::ComponentStateKind::CSK_Created) {
+            cmp->Publish(CreatePublication(cmp));
+          }
+          if (cmp->GetState() == ::Smp::ComponentStateKind::CSK_Publishing) {
+            cmp->Configure(_logger, _linkRegistry);
+          }
+          if (cmp->GetState() == ::Smp::ComponentStateKind::CSK_Configured) {
+            cmp->Connect(this);
+          }
+        });
+      },
+      ::Smp::Services::IEventManager::SMP_LeaveReconnectingId);
 }
 
 void Simulator::Exit() {
diff --git a/src/Xsmp/Simulator.h b/src/Xsmp/Simulator.h
index 8e36d88..e6c73d5 100644
--- a/src/Xsmp/Simulator.h
+++ b/src/Xsmp/Simulator.h
@@ -391,6 +391,13 @@ private:
                    ::Smp::SimulatorStateKind state,
                    ::Smp::Services::EventId enterEventId);
 
+  /// Perform an action in a state that is left to Standby afterwards, also if
+  /// the action throws an exception
+  /// @param action the action to perform
+  /// @param leaveEventId the global event emitted before leaving the state
+  template <typename Action>
+  void ActThenStandby(Action &&action, ::Smp::Services::EventId leaveEventId);
+
   std::atomic<::Smp::Services::EventId> _lastGlobalEventId{-1};
 
   Container<::Smp::IService> _services;
-- 
2.43.0


From 68bbfe80bcf27775489fe3432e02c13dfc7af640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:40 +0000
Subject: [PATCH 68/93] fix: publish a new global event identifier only once it
 is usable

---
 src/Xsmp/Services/XsmpEventManager.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Xsmp/Services/XsmpEventManager.cpp b/src/Xsmp/Services/XsmpEventManager.cpp
index e6f8c1d..8840967 100644
--- a/src/Xsmp/Services/XsmpEventManager.cpp
+++ b/src/Xsmp/Services/XsmpEventManager.cpp
@@ -107,7 +107,6 @@ XsmpEventManager::QueryEventId(::Smp::String8 eventName) {
 
   const auto &name =
       eventsAccess.get().try_emplace(eventName, eventId).first->first;
-  eventsAccess.unlock();
   _ids.write().get().try_emplace(eventId, name);
   return eventId;
 }
@@ -199,12 +198,13 @@ void XsmpEventManager::Emit(::Smp::Services::EventId event,
 }
 
 void XsmpEventManager::Restore(::Smp::IStorageReader *reader) {
-  ::Xsmp::Persist::Restore(GetSimulator(), this, reader, _events.write().get(),
+  auto eventsAccess = _events.write();
+  ::Xsmp::Persist::Restore(GetSimulator(), this, reader, eventsAccess.get(),
                            _subscriptions.write().get());
   // rebuild _ids map from _events
   auto idsAccess = _ids.write();
   idsAccess.get().clear();
-  for (const auto &[name, id] : _events.read().get()) {
+  for (const auto &[name, id] : eventsAccess.get()) {
     idsAccess.get().try_emplace(id, name);
   }
 }
-- 
2.43.0


From 72fe21693844e1ddabb9a5f8ccc4b571758124a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:40 +0000
Subject: [PATCH 69/93] fix: accept several link sources with the same name

---
 src/Xsmp/Services/XsmpLinkRegistry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Xsmp/Services/XsmpLinkRegistry.h b/src/Xsmp/Services/XsmpLinkRegistry.h
index 0650728..57a93b8 100644
--- a/src/Xsmp/Services/XsmpLinkRegistry.h
+++ b/src/Xsmp/Services/XsmpLinkRegistry.h
@@ -129,7 +129,7 @@ private:
       _links;
 
   mutable Xsmp::ThreadSafeData<std::map<const ::Smp::IComponent *,
-                                        ::Xsmp::Collection<::Smp::IComponent>>>
+                                        ::Xsmp::Collection<::Smp::IComponent, true>>>
       _targets;
 };
 } // namespace Xsmp::Services
-- 
2.43.0


From 6a451b7c0f7b126ffb9fc3242ba669dc60af20aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:40 +0000
Subject: [PATCH 70/93] fix: ask every link source once to remove its links

---
 src/Xsmp/Services/XsmpLinkRegistry.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/Xsmp/Services/XsmpLinkRegistry.cpp b/src/Xsmp/Services/XsmpLinkRegistry.cpp
index f808d0d..9380386 100644
--- a/src/Xsmp/Services/XsmpLinkRegistry.cpp
+++ b/src/Xsmp/Services/XsmpLinkRegistry.cpp
@@ -18,6 +18,7 @@
 #include <Xsmp/Services/XsmpLinkRegistry.h>
 #include <mutex>
 #include <utility>
+#include <vector>
 
 namespace Xsmp::Services {
 
@@ -106,17 +107,22 @@ XsmpLinkRegistry::GetLinkSources(const ::Smp::IComponent *target) const {
 }
 
 void XsmpLinkRegistry::RemoveLinks(const ::Smp::IComponent *target) {
-  auto targetAccess = _targets.read();
-  if (auto it = targetAccess.get().find(target);
-      it != targetAccess.get().end()) {
-    for (auto *source : it->second) {
-      if (auto *cmp = dynamic_cast<::Smp::ILinkingComponent *>(source)) {
-        targetAccess.unlock();
-        cmp->RemoveLinks(target);
-        targetAccess.lock();
+  // the sources remove their links from the registry meanwhile
+  std::vector<::Smp::IComponent *> sources;
+  {
+    auto targetAccess = _targets.read();
+    if (auto it = targetAccess.get().find(target);
+        it != targetAccess.get().end()) {
+      for (auto *source : it->second) {
+        sources.push_back(source);
       }
     }
   }
+  for (auto *source : sources) {
+    if (auto *cmp = dynamic_cast<::Smp::ILinkingComponent *>(source)) {
+      cmp->RemoveLinks(target);
+    }
+  }
 }
 
 } // namespace Xsmp::Services
-- 
2.43.0


From 9b08b1787783c6b20acbc4568f175b3329870dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:14 +0000
Subject: [PATCH 71/93] fix: use the default layout when a log appender asks
 for an unknown one

---
 src/Xsmp/Services/XsmpLogger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Xsmp/Services/XsmpLogger.cpp b/src/Xsmp/Services/XsmpLogger.cpp
index 6bf3ea8..3933845 100644
--- a/src/Xsmp/Services/XsmpLogger.cpp
+++ b/src/Xsmp/Services/XsmpLogger.cpp
@@ -315,7 +315,7 @@ public:
       }
     }
     // create a PatternLayout by default
-    else {
+    if (!_layout) {
       _layout = std::make_unique<PatternLayout>(key, properties);
     }
     if (auto levels = properties.find(path + ".levels");
-- 
2.43.0


From cba913b351cf19e972239ee2bea2cf4cd4af814e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:14 +0000
Subject: [PATCH 72/93] fix: stop at the end of a log pattern

---
 src/Xsmp/Services/XsmpLogger.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/Xsmp/Services/XsmpLogger.cpp b/src/Xsmp/Services/XsmpLogger.cpp
index 3933845..6f9ce79 100644
--- a/src/Xsmp/Services/XsmpLogger.cpp
+++ b/src/Xsmp/Services/XsmpLogger.cpp
@@ -199,9 +199,9 @@ public:
   void Append(std::ostream &stream, const LogEntry &entry) const override {
     using namespace std::chrono;
 
-    auto format = [&stream](std::string::const_iterator &it,
-                            const auto &value) {
-      if (auto fmt = GetFormatting(it); fmt.empty()) {
+    auto format = [this, &stream](std::string::const_iterator &it,
+                                  const auto &value) {
+      if (auto fmt = GetFormatting(it, _pattern.end()); fmt.empty()) {
         stream << static_cast<::Smp::Int64>(value);
       } else {
         value.to_stream(stream, fmt);
@@ -210,7 +210,7 @@ public:
 
     auto it = _pattern.begin();
     while (it != _pattern.end()) {
-      if (*it == '%') {
+      if (*it == '%' && std::next(it) != _pattern.end()) {
         ++it;
         switch (*it) {
         case 'p':
@@ -284,13 +284,15 @@ private:
     // use default pattern
     return "%d{%F %T}%t%S%t%p%t%k%t%m%n";
   }
-  static std::string GetFormatting(std::string::const_iterator &it) noexcept {
+  static std::string GetFormatting(std::string::const_iterator &it,
+                                   std::string::const_iterator end) noexcept {
     std::string formatting;
-    if (it[1] == '{') {
-      it += 2;
-      while (*it != '}') {
-        formatting.push_back(*it);
-        ++it;
+    if (auto begin = std::next(it); begin != end && *begin == '{') {
+      ++begin;
+      // an unterminated format is written as is
+      if (auto last = std::find(begin, end, '}'); last != end) {
+        formatting.assign(begin, last);
+        it = last;
       }
     }
     return formatting;
-- 
2.43.0


From 76e6bf6d57469687d40d4e54bda924087468598e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:24 +0000
Subject: [PATCH 73/93] fix: reschedule the events posted while the clocks
 differ from the table

---
 src/Xsmp/Services/XsmpScheduler.cpp | 7 ++++++-
 src/Xsmp/Services/XsmpScheduler.h   | 2 ++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index 0226f67..b297e65 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -173,6 +173,7 @@ XsmpScheduler::AddEvent(const ::Smp::IEntryPoint *entryPoint,
     ::Xsmp::Exception::throwInvalidCycleTime(this, cycleTime);
   }
 
+  _timeChanged = IsTimeChanged();
   ++_lastEventId;
   _events.try_emplace(_lastEventId, Event{entryPoint, simulationTime, time,
                                           cycleTime, repeat, kind});
@@ -274,6 +275,7 @@ void XsmpScheduler::SetEventTime(::Smp::Services::EventId eventId,
     return;
   }
 
+  _timeChanged = IsTimeChanged();
   it->second.nextScheduleSimulationTime = simulationTime;
   it->second.time = time;
 
@@ -335,7 +337,8 @@ bool XsmpScheduler::UpdateTime(Event &event) const {
 bool XsmpScheduler::IsTimeChanged() const {
   const auto *timeKeeper = GetSimulator()->GetTimeKeeper();
   const auto simulationTime = timeKeeper->GetSimulationTime();
-  return _missionTimeOffset !=
+  return _timeChanged ||
+         _missionTimeOffset !=
              Subtract(timeKeeper->GetMissionTime(), simulationTime) ||
          _epochTimeOffset !=
              Subtract(timeKeeper->GetEpochTime(), simulationTime);
@@ -349,6 +352,7 @@ void XsmpScheduler::UpdateTimes() {
   const auto simulationTime = timeKeeper->GetSimulationTime();
   _missionTimeOffset = Subtract(timeKeeper->GetMissionTime(), simulationTime);
   _epochTimeOffset = Subtract(timeKeeper->GetEpochTime(), simulationTime);
+  _timeChanged = false;
 
   for (auto it = _events.begin(); it != _events.end();) {
     auto &[eventId, event] = *it;
@@ -714,6 +718,7 @@ void XsmpScheduler::Restore(::Smp::IStorageReader *reader) {
                              _events_table, _immediate_events, _lastEventId);
     // the event that is being executed, if any, is not the restored one
     _currentEventId = -1;
+    _timeChanged = true;
     _zulu_events_table.clear();
     for (const auto &[eventId, event] : _events) {
       if (event.kind == ::Smp::Services::TimeKind::TK_ZuluTime) {
diff --git a/src/Xsmp/Services/XsmpScheduler.h b/src/Xsmp/Services/XsmpScheduler.h
index 19763f0..4939dd9 100644
--- a/src/Xsmp/Services/XsmpScheduler.h
+++ b/src/Xsmp/Services/XsmpScheduler.h
@@ -403,6 +403,8 @@ private:
   // offsets to the simulation time _events_table has been computed with
   ::Smp::Duration _missionTimeOffset{};
   ::Smp::Duration _epochTimeOffset{};
+  // some events of _events_table have been scheduled with other offsets
+  bool _timeChanged{};
 
   // immediate events  table
   EventList _immediate_events;
-- 
2.43.0


From 7cb1a8c8239120ded5dbbe64dd6425c535668414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:21 +0000
Subject: [PATCH 74/93] fix: publish, configure and connect the components
 added meanwhile

---
 src/Xsmp/Simulator.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index 9e2563f..e45fa4b 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -112,6 +112,22 @@ void recursive_action(::Smp::IComposite const *composite, Callable &&func) {
   }
 }
 
+/// Apply an action to a component or composite and all the components below,
+/// and then to those that have been added meanwhile, until no component
+/// changes its state any more
+template <typename Root, typename Callable>
+void settle(Root *root, const Callable &action) {
+  bool changed = false;
+  do {
+    changed = false;
+    recursive_action(root, [&action, &changed](::Smp::IComponent *cmp) {
+      const auto state = cmp->GetState();
+      action(cmp);
+      changed = changed || cmp->GetState() != state;
+    });
+  } while (changed);
+}
+
 constexpr ::Smp::String8 initialiseSymbol = "Initialise";
 constexpr ::Smp::String8 finaliseSymbol = "Finalise";
 } // namespace
@@ -175,7 +191,7 @@ void Simulator::Publish() {
     return;
   }
 
-  recursive_action(this, [this](::Smp::IComponent *cmp) {
+  settle(this, [this](::Smp::IComponent *cmp) {
     if (cmp->GetState() == ::Smp::ComponentStateKind::CSK_Created) {
       cmp->Publish(CreatePublication(cmp));
     }
@@ -194,7 +210,7 @@ void Simulator::Configure() {
     return;
   }
 
-  recursive_action(this, [this](::Smp::IComponent *cmp) {
+  settle(this, [this](::Smp::IComponent *cmp) {
     if (cmp->GetState() == ::Smp::ComponentStateKind::CSK_Created) {
       cmp->Publish(CreatePublication(cmp));
     }
@@ -217,7 +233,7 @@ void Simulator::Connect() {
   }
   _state = ::Smp::SimulatorStateKind::SSK_Connecting;
 
-  recursive_action(this, [this](::Smp::IComponent *cmp) {
+  settle(this, [this](::Smp::IComponent *cmp) {
     if (cmp->GetState() == ::Smp::ComponentStateKind::CSK_Created) {
       cmp->Publish(CreatePublication(cmp));
     }
@@ -551,7 +567,7 @@ void Simulator::Reconnect(::Smp::IComponent *root) {
         if (!root) {
           return;
         }
-        recursive_action(root, [this](::Smp::IComponent *cmp) {
+        settle(root, [this](::Smp::IComponent *cmp) {
           if (cmp->GetState() == ::Smp::ComponentStateKind::CSK_Created) {
             cmp->Publish(CreatePublication(cmp));
           }
-- 
2.43.0


From 2489740a4cddb17ce6798b97df3d088cabf22010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:01 +0000
Subject: [PATCH 75/93] fix: hold once when several threads ask for it

---
 src/Xsmp/Simulator.cpp | 9 ++++++++-
 src/Xsmp/Simulator.h   | 5 +++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index e45fa4b..46d0e09 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -347,6 +347,10 @@ void Simulator::Run() {
     }
     return;
   }
+  {
+    const std::scoped_lock lck{_holdMutex};
+    _holding = false;
+  }
   ChangeState(::Smp::Services::IEventManager::SMP_LeaveStandbyId,
               ::Smp::SimulatorStateKind::SSK_Executing,
               ::Smp::Services::IEventManager::SMP_EnterExecutingId);
@@ -377,7 +381,8 @@ void Simulator::Run(::Smp::Duration duration) {
 
 void Simulator::Hold(::Smp::Bool immediate) {
 
-  if (_state != ::Smp::SimulatorStateKind::SSK_Executing ||
+  std::unique_lock lck{_holdMutex};
+  if (_state != ::Smp::SimulatorStateKind::SSK_Executing || _holding ||
       _lastGlobalEventId ==
           ::Smp::Services::IEventManager::SMP_LeaveExecutingId) {
     if (_logger) {
@@ -391,6 +396,7 @@ void Simulator::Hold(::Smp::Bool immediate) {
 
   if (immediate) {
 
+    _holding = true;
     // forget the other pending requests to hold
     if (_holdPending.exchange(false)) {
       _eventManager->Unsubscribe(
@@ -400,6 +406,7 @@ void Simulator::Hold(::Smp::Bool immediate) {
     if (const auto eventId = _holdAfterDurationId.exchange(-1); eventId != -1) {
       _scheduler->RemoveEvent(eventId);
     }
+    lck.unlock();
     ChangeState(::Smp::Services::IEventManager::SMP_LeaveExecutingId,
                 ::Smp::SimulatorStateKind::SSK_Standby,
                 ::Smp::Services::IEventManager::SMP_EnterStandbyId);
diff --git a/src/Xsmp/Simulator.h b/src/Xsmp/Simulator.h
index e6c73d5..9e2640a 100644
--- a/src/Xsmp/Simulator.h
+++ b/src/Xsmp/Simulator.h
@@ -30,6 +30,7 @@
 #include <Xsmp/Publication/TypeRegistry.h>
 #include <Xsmp/cstring.h>
 #include <atomic>
+#include <mutex>
 #include <list>
 #include <utility>
 #include <vector>
@@ -412,6 +413,10 @@ private:
   ::Xsmp::EntryPoint _holdImmediately;
   // true if _holdImmediately is subscribed to SMP_PreSimTimeChange
   std::atomic<bool> _holdPending{false};
+  // true once an immediate hold of the current run has begun
+  bool _holding{false};
+  // protects the requests to hold
+  std::mutex _holdMutex;
   // hold after the duration given to Run
   ::Xsmp::EntryPoint _holdAfterDuration;
   std::atomic<::Smp::Services::EventId> _holdAfterDurationId{-1};
-- 
2.43.0


From 2bef35fabde6b97fa13233d725a9d180d20b3f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:31 +0000
Subject: [PATCH 76/93] fix: let the event manager log without a simulator

---
 src/Xsmp/Services/XsmpEventManager.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/Xsmp/Services/XsmpEventManager.cpp b/src/Xsmp/Services/XsmpEventManager.cpp
index 8840967..44e473a 100644
--- a/src/Xsmp/Services/XsmpEventManager.cpp
+++ b/src/Xsmp/Services/XsmpEventManager.cpp
@@ -90,6 +90,13 @@ XsmpEventManager::XsmpEventManager(::Smp::String8 name,
   }
 }
 
+namespace {
+/// there is no simulator any more once the simulation has been exited
+::Smp::Services::ILogger *GetLogger(const ::Smp::ISimulator *simulator) {
+  return simulator ? simulator->GetLogger() : nullptr;
+}
+} // namespace
+
 ::Smp::Services::EventId
 XsmpEventManager::QueryEventId(::Smp::String8 eventName) {
   if (!eventName || eventName[0] == '\0') {
@@ -142,7 +149,7 @@ void XsmpEventManager::Subscribe(::Smp::Services::EventId event,
           event, std::vector<const ::Smp::IEntryPoint *>{entryPoint});
     }
   }
-  if (auto *logger = GetSimulator()->GetLogger()) {
+  if (auto *logger = GetLogger(GetSimulator())) {
     logger->Log(this,
                 (::Xsmp::Helper::GetPath(entryPoint) + " subscribed to " +
                  event_name + ".")
@@ -164,7 +171,7 @@ void XsmpEventManager::Unsubscribe(::Smp::Services::EventId event,
     auto it2 = std::find(entryPoints.begin(), entryPoints.end(), entryPoint);
     if (it2 != entryPoints.end()) {
       entryPoints.erase(it2);
-      if (auto *logger = GetSimulator()->GetLogger()) {
+      if (auto *logger = GetLogger(GetSimulator())) {
         logger->Log(this,
                     (::Xsmp::Helper::GetPath(entryPoint) + " unsubscribed to " +
                      event_name + ".")
@@ -182,7 +189,7 @@ void XsmpEventManager::Emit(::Smp::Services::EventId event,
                             ::Smp::Bool /*synchronous*/) {
 
   const auto &event_name = GetEventName(event);
-  if (auto *logger = GetSimulator()->GetLogger()) {
+  if (auto *logger = GetLogger(GetSimulator())) {
     logger->Log(this, event_name.c_str(), ::Smp::Services::ILogger::LMK_Event);
   }
   auto subscriptionAccess = _subscriptions.read();
-- 
2.43.0


From e3cc7bd5009a058b6e6a79ddd0b18bde69ab9e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:49 +0000
Subject: [PATCH 77/93] fix: report a saved state that could not be written
 completely

---
 src/Xsmp/Simulator.cpp     | 1 +
 src/Xsmp/StorageWriter.cpp | 8 ++++++++
 src/Xsmp/StorageWriter.h   | 4 ++++
 3 files changed, 13 insertions(+)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index 46d0e09..f5a3b1b 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -480,6 +480,7 @@ void Simulator::Store(::Smp::String8 filename) {
         StorageWriter writer{filename, PERSIST_FILENAME, this};
 
         ::Xsmp::Store(this, &writer);
+        writer.Close();
       },
       ::Smp::Services::IEventManager::SMP_LeaveStoringId);
 }
diff --git a/src/Xsmp/StorageWriter.cpp b/src/Xsmp/StorageWriter.cpp
index 787c9fa..424e536 100644
--- a/src/Xsmp/StorageWriter.cpp
+++ b/src/Xsmp/StorageWriter.cpp
@@ -65,6 +65,14 @@ void StorageWriter::Store(void *address, ::Smp::UInt64 size) {
   }
 }
 
+void StorageWriter::Close() {
+  _os.close();
+  if (_os.fail()) {
+    ::Xsmp::Exception::throwCannotStore(_object,
+                                        "Writing error on output operation");
+  }
+}
+
 ::Smp::String8 StorageWriter::GetStateVectorFileName() const {
   return _filename.c_str();
 }
diff --git a/src/Xsmp/StorageWriter.h b/src/Xsmp/StorageWriter.h
index 56358ec..ac85f2c 100644
--- a/src/Xsmp/StorageWriter.h
+++ b/src/Xsmp/StorageWriter.h
@@ -42,6 +42,10 @@ public:
   /// @param   size Size of memory block.
   void Store(void *address, ::Smp::UInt64 size) override;
 
+  /// Write the data that is still buffered and close the storage.
+  /// @throws  Smp::CannotStore if the data cannot be written.
+  void Close();
+
   /// Get the state vector file name.
   /// This method returns a full file name, including the path to the
   /// file.
-- 
2.43.0


From 90c7cb3ca42e799f6fbe02664def46d9620f73ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:33 +0000
Subject: [PATCH 78/93] fix: print UUIDs and typed values whatever the format
 of the stream

---
 src/Smp/StreamOperators.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/Smp/StreamOperators.cpp b/src/Smp/StreamOperators.cpp
index d9d45ef..075ea62 100644
--- a/src/Smp/StreamOperators.cpp
+++ b/src/Smp/StreamOperators.cpp
@@ -208,14 +208,18 @@ std::ostream &operator<<(std::ostream &os, const AnySimple &obj) {
       if (obj.value.char8Value >= ' ' && obj.value.char8Value <= '~') {
         return os << "'" << obj.value.char8Value << "'";
       } else {
-        return os << "'\\" << std::oct
-                  << static_cast<unsigned int>(obj.value.char8Value) << std::dec
-                  << "'";
+        const auto flags = os.flags(std::ios_base::oct);
+        os << "'\\"
+           << static_cast<unsigned int>(
+                  static_cast<unsigned char>(obj.value.char8Value))
+           << "'";
+        os.flags(flags);
+        return os;
       }
     }
   }
   case PrimitiveTypeKind::PTK_Bool:
-    return os << std::boolalpha << obj.value.boolValue << std::noboolalpha;
+    return os << (obj.value.boolValue ? "true" : "false");
   case PrimitiveTypeKind::PTK_Int8:
     return os << static_cast<int>(obj.value.int8Value) << "i8";
   case PrimitiveTypeKind::PTK_UInt8:
@@ -241,6 +245,9 @@ std::ostream &operator<<(std::ostream &os, const AnySimple &obj) {
   case PrimitiveTypeKind::PTK_DateTime:
     return os << "\"" << ::Xsmp::DateTime(obj.value.dateTimeValue) << "\"";
   case PrimitiveTypeKind::PTK_String8:
+    if (!obj.value.string8Value) {
+      return os << "nullptr";
+    }
     return os << "\"" << obj.value.string8Value << "\"";
   }
   return os << "<invalid AnySimple type=\""
@@ -249,7 +256,10 @@ std::ostream &operator<<(std::ostream &os, const AnySimple &obj) {
 
 std::ostream &operator<<(std::ostream &ostream, const ::Smp::Uuid &uuid) {
 
-  ostream << std::hex << std::setw(8) << std::setfill('0') << uuid.Data1;
+  const auto flags = ostream.flags(std::ios_base::hex | std::ios_base::right);
+  const auto fill = ostream.fill('0');
+
+  ostream << std::setw(8) << uuid.Data1;
 
   ostream << "-" << std::setw(4) << uuid.Data2[0];
   ostream << "-" << std::setw(4) << uuid.Data2[1];
@@ -260,7 +270,8 @@ std::ostream &operator<<(std::ostream &ostream, const ::Smp::Uuid &uuid) {
   for (const std::uint16_t data : uuid.Data3) {
     ostream << std::setw(2) << data;
   }
-  ostream << std::setfill(' ') << std::dec;
+  ostream.fill(fill);
+  ostream.flags(flags);
 
   return ostream;
 }
-- 
2.43.0


From 9defd11fff274168fc635eb98236128a166f3f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:03 +0000
Subject: [PATCH 79/93] fix: let a delegating collection accept duplicates

---
 include/Xsmp/Collection.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/Xsmp/Collection.h b/include/Xsmp/Collection.h
index 583d5fa..6574e0a 100644
--- a/include/Xsmp/Collection.h
+++ b/include/Xsmp/Collection.h
@@ -262,7 +262,9 @@ public:
   /// @return Instance with given name, or nullptr if no such instance exists.
   T *at(::Smp::String8 name) const override {
     auto *value = _delegate->at(name);
-    return value ? value : ::Xsmp::detail::AbstractCollection<T>::at(name);
+    return value ? value
+                 : ::Xsmp::detail::AbstractCollection<T, AllowDuplicates>::at(
+                       name);
   }
 
   /// Retrieve element by position in the sequence (based on order of
@@ -272,20 +274,22 @@ public:
   T *at(size_t index) const override {
     return index < _delegate->size()
                ? _delegate->at(index)
-               : ::Xsmp::detail::AbstractCollection<T>::at(index -
-                                                           _delegate->size());
+               : ::Xsmp::detail::AbstractCollection<T, AllowDuplicates>::at(
+                     index - _delegate->size());
   }
 
   /// Get the number of objects in the sequence.
   /// @return Number of objects in the sequence.
   size_t size() const override {
-    return detail::AbstractCollection<T>::size() + _delegate->size();
+    return detail::AbstractCollection<T, AllowDuplicates>::size() +
+           _delegate->size();
   }
 
   /// Check if the collection is empty.
   /// @return true if the collection is empty, false otherwise.
   bool empty() const override {
-    return detail::AbstractCollection<T>::empty() && (_delegate->size() == 0);
+    return detail::AbstractCollection<T, AllowDuplicates>::empty() &&
+           (_delegate->size() == 0);
   }
 
   /// Get the begin iterator
-- 
2.43.0


From 3ebec41a28e85e8260ffca5ba9a2868bd089cfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:45 +0000
Subject: [PATCH 80/93] fix: fix: a null name finds no service

---
 src/Xsmp/Simulator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Xsmp/Simulator.cpp b/src/Xsmp/Simulator.cpp
index f5a3b1b..07c38cf 100644
--- a/src/Xsmp/Simulator.cpp
+++ b/src/Xsmp/Simulator.cpp
@@ -692,6 +692,9 @@ void Simulator::AddService(::Smp::IService *service) {
 }
 
 ::Smp::IService *Simulator::GetService(::Smp::String8 name) const {
+  if (!name) {
+    return nullptr;
+  }
   auto it = _services.find(name);
   return it != _services.end() ? *it : nullptr;
 }
-- 
2.43.0


From d7b56d44b7db23043094f3f14b9b547899d0b9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:34 +0000
Subject: [PATCH 81/93] fix: fix: do not start a run that is over already

---
 src/Xsmp/Services/XsmpScheduler.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index b297e65..d496624 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -745,7 +745,10 @@ void XsmpScheduler::_LeaveExecuting() {
 }
 
 void XsmpScheduler::_EnterExecuting() {
-  ExecuteUntilHold();
+  // a previous handler may have held the simulation, and even exited
+  if (_simulationStatus != Status::Hold) {
+    ExecuteUntilHold();
+  }
   // ready for next execution. Not done when starting to not miss a hold that is
   // requested in the meantime
   _simulationStatus = Status::Running;
-- 
2.43.0


From c4344ac8afe1d837460f47cfbdd68b406a0a6fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:14 +0000
Subject: [PATCH 82/93] fix: accept negative indices in the Python bindings

---
 src/python/ecss_smp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/ecss_smp.cpp b/src/python/ecss_smp.cpp
index 42a1cfb..7577c32 100644
--- a/src/python/ecss_smp.cpp
+++ b/src/python/ecss_smp.cpp
@@ -537,7 +537,7 @@ py::object convert(const ::Smp::AnySimple &value) {
 ::Smp::UInt64 GetIndex(::Smp::Int64 index, ::Smp::UInt64 size) {
   const ::Smp::Int64 result =
       index < 0 ? static_cast<::Smp::Int64>(size) + index : index;
-  if (result < 0 || static_cast<::Smp::UInt64>(index) >= size) {
+  if (result < 0 || static_cast<::Smp::UInt64>(result) >= size) {
     throw py::index_error(std::to_string(index));
   }
   return static_cast<::Smp::UInt64>(result);
-- 
2.43.0


From 152247d807bfd86d9f0dfe255eefd7b828449f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:14 +0000
Subject: [PATCH 83/93] fix: give texts a truth in the Python bindings

---
 src/python/Smp/IPropertyBinding.h    | 2 +-
 src/python/Smp/ISimpleFieldBinding.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/Smp/IPropertyBinding.h b/src/python/Smp/IPropertyBinding.h
index 88f03df..75b2266 100644
--- a/src/python/Smp/IPropertyBinding.h
+++ b/src/python/Smp/IPropertyBinding.h
@@ -49,7 +49,7 @@ inline void RegisterIProperty(const py::module_ &m) {
 
       .def("__bool__",
            [](const ::Smp::IProperty &self) {
-             return convert(self.GetValue()).cast<bool>();
+             return static_cast<bool>(py::bool_(convert(self.GetValue())));
            })
 
       .def("__eq__",
diff --git a/src/python/Smp/ISimpleFieldBinding.h b/src/python/Smp/ISimpleFieldBinding.h
index aea7688..41b80db 100644
--- a/src/python/Smp/ISimpleFieldBinding.h
+++ b/src/python/Smp/ISimpleFieldBinding.h
@@ -47,7 +47,7 @@ inline void RegisterISimpleField(const py::module_ &m) {
 
       .def("__bool__",
            [](const ::Smp::ISimpleField &self) {
-             return convert(self.GetValue()).cast<bool>();
+             return static_cast<bool>(py::bool_(convert(self.GetValue())));
            })
 
       .def("__eq__",
-- 
2.43.0


From 73dfdb973b9768c9b7ba103409eba9434dae8270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:11 +0000
Subject: [PATCH 84/93] fix: report the error of reading an array item in
 Python as it is

---
 src/python/Smp/ISimpleArrayFieldBinding.h | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/python/Smp/ISimpleArrayFieldBinding.h b/src/python/Smp/ISimpleArrayFieldBinding.h
index c44db51..1a57aa7 100644
--- a/src/python/Smp/ISimpleArrayFieldBinding.h
+++ b/src/python/Smp/ISimpleArrayFieldBinding.h
@@ -31,11 +31,7 @@ inline void RegisterISimpleArrayField(const py::module_ &m) {
 
       .def("__getitem__",
            [](const ::Smp::ISimpleArrayField &self, ::Smp::Int64 index) {
-             try {
-               return convert(self.GetValue(GetIndex(index, self.GetSize())));
-             } catch (const std::exception &) {
-               throw py::index_error(std::to_string(index));
-             }
+             return convert(self.GetValue(GetIndex(index, self.GetSize())));
            })
 
       .def("__setitem__",
-- 
2.43.0


From 793eeba747b4e6b2f1c5e9dd6ce1c0f8dd9c71b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:26 +0000
Subject: [PATCH 85/93] fix: do not hand the ownership of existing objects to
 Python

---
 src/python/Smp/IContainerBinding.h             | 1 +
 src/python/Smp/IReferenceBinding.h             | 1 +
 src/python/Smp/Services/ILinkRegistryBinding.h | 2 +-
 src/python/Smp/Services/IResolverBinding.h     | 3 ++-
 4 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/python/Smp/IContainerBinding.h b/src/python/Smp/IContainerBinding.h
index 9b5f3da..338d405 100644
--- a/src/python/Smp/IContainerBinding.h
+++ b/src/python/Smp/IContainerBinding.h
@@ -78,6 +78,7 @@ A return value of -1 indicates that the collection has no upper limit.)")
           py::arg("name"))
 
       .def("GetComponent", &::Smp::IContainer::GetComponent, py::arg("name"),
+           py::return_value_policy::reference,
            R"(Query for a component contained in the container by name.
 The returned component may be null if no child with the given name could be found.)")
 
diff --git a/src/python/Smp/IReferenceBinding.h b/src/python/Smp/IReferenceBinding.h
index 58d9248..de17c0e 100644
--- a/src/python/Smp/IReferenceBinding.h
+++ b/src/python/Smp/IReferenceBinding.h
@@ -78,6 +78,7 @@ A return value of -1 indicates that the collection has no upper limit.)")
           py::arg("name"))
 
       .def("GetComponent", &::Smp::IReference::GetComponent, py::arg("name"),
+           py::return_value_policy::reference,
            R"(Query for a referenced component by its name.
 The returned component may be null if no component with the given name could be found.
 Multiple components with the same name, but with a different parent (and hence path) may end up in a single reference.
diff --git a/src/python/Smp/Services/ILinkRegistryBinding.h b/src/python/Smp/Services/ILinkRegistryBinding.h
index 4d3237f..d4586f5 100644
--- a/src/python/Smp/Services/ILinkRegistryBinding.h
+++ b/src/python/Smp/Services/ILinkRegistryBinding.h
@@ -45,7 +45,7 @@ This method can be called several times with the same arguments, when a source c
 
       .def(
           "GetLinkSources", &::Smp::Services::ILinkRegistry::GetLinkSources,
-          py::arg("target"),
+          py::arg("target"), py::return_value_policy::reference,
           R"(Returns a collection of all sources that have a link to the given target.
 This method returns the collection of source components for which a link to the given target component has been added to the link registry.)")
 
diff --git a/src/python/Smp/Services/IResolverBinding.h b/src/python/Smp/Services/IResolverBinding.h
index 33ba301..3cf5b51 100644
--- a/src/python/Smp/Services/IResolverBinding.h
+++ b/src/python/Smp/Services/IResolverBinding.h
@@ -24,13 +24,14 @@ inline void RegisterIResolver(const py::module_ &m) {
       m, "IResolver", py::multiple_inheritance())
 
       .def("ResolveAbsolute", &::Smp::Services::IResolver::ResolveAbsolute,
-           py::arg("absolute_path"),
+           py::arg("absolute_path"), py::return_value_policy::reference,
            R"(Resolve reference to an object via absolute path.
 An absolute path contains the name of either a Model or Service, but not the name of the simulator, although the simulator itself is the top-level object.
 This allows keeping names as short as possible, and avoids a dependency on the name of the simulator itself.)")
 
       .def("ResolveRelative", &::Smp::Services::IResolver::ResolveRelative,
            py::arg("relative_path"), py::arg("relative_root"),
+           py::return_value_policy::reference,
            "Resolve reference to an object via relative path.")
 
       .doc() = "This interface gives access to the Resolver Service.";
-- 
2.43.0


From cf75d039915ba05ddd096dc3b740f3dc39f389b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:14 +0000
Subject: [PATCH 86/93] fix: run exactly the duration asked for in Python

---
 src/python/Smp/ISimulatorBinding.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/Smp/ISimulatorBinding.h b/src/python/Smp/ISimulatorBinding.h
index 9f3dc07..fa19a2f 100644
--- a/src/python/Smp/ISimulatorBinding.h
+++ b/src/python/Smp/ISimulatorBinding.h
@@ -47,6 +47,7 @@
 #include <Xsmp/Exception.h>
 #include <Xsmp/LibraryHelper.h>
 #include <chrono>
+#include <cmath>
 #include <fstream>
 #include <memory>
 #include <python/ecss_smp.h>
@@ -86,7 +87,7 @@ void Run(::Smp::ISimulator &self, double ns, double us, double ms, double s,
   ms += 1000 * s;
   us += 1000 * ms;
   ns += 1000 * us;
-  auto duration = static_cast<::Smp::Duration>(ns);
+  auto duration = static_cast<::Smp::Duration>(std::llround(ns));
 
   if (self.GetState() == ::Smp::SimulatorStateKind::SSK_Standby) {
     ::Xsmp::EntryPoint hold{"hold",
-- 
2.43.0


From a5ee99be92dfb38c0cc960540645ea701b83c066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:14 +0000
Subject: [PATCH 87/93] fix: do not leave the end of a Python run in the
 scheduler

---
 src/python/Smp/ISimulatorBinding.h | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/python/Smp/ISimulatorBinding.h b/src/python/Smp/ISimulatorBinding.h
index fa19a2f..dfd8468 100644
--- a/src/python/Smp/ISimulatorBinding.h
+++ b/src/python/Smp/ISimulatorBinding.h
@@ -93,17 +93,28 @@ void Run(::Smp::ISimulator &self, double ns, double us, double ms, double s,
     ::Xsmp::EntryPoint hold{"hold",
                             "call simulator hold after the specified duration",
                             &self, [&self] { self.Hold(false); }};
-    self.GetScheduler()->AddSimulationTimeEvent(&hold, duration);
+    auto *scheduler = self.GetScheduler();
+    const auto holdId = scheduler->AddSimulationTimeEvent(&hold, duration);
 
     self.Run();
 
+    bool interrupted = false;
     while (self.GetState() == ::Smp::SimulatorStateKind::SSK_Executing) {
-      if (PyErr_CheckSignals() != 0) {
+      if (!interrupted && PyErr_CheckSignals() != 0) {
+        interrupted = true;
         self.Hold(true);
-        throw py::error_already_set();
       }
       std::this_thread::sleep_for(std::chrono::microseconds(10));
     }
+
+    // the simulation may have been held before the end of the duration
+    try {
+      scheduler->RemoveEvent(holdId);
+    } catch (const ::Smp::Services::InvalidEventId &) {
+      // the event has been executed
+    }
+    if (interrupted)
+      throw py::error_already_set();
   } else {
     self.Run();
   }
-- 
2.43.0


From 1fe2036f32d620471ba7f5dd15e75e3c399f50bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:03 +0000
Subject: [PATCH 88/93] fix: give factories and collections their methods in
 Python

---
 src/python/ecss_smp.cpp | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/python/ecss_smp.cpp b/src/python/ecss_smp.cpp
index 7577c32..6a4fad7 100644
--- a/src/python/ecss_smp.cpp
+++ b/src/python/ecss_smp.cpp
@@ -280,6 +280,37 @@ static inline const TypeHierarchy IObjectHierarchy =
 
         TypeHierarchy::template of<::Smp::IParameter>(),
 
+        TypeHierarchy::template of<::Smp::IFactory>(),
+
+        // ICollection
+        TypeHierarchy::template of<::Smp::ICollection<::Smp::IFactory>>(),
+
+        TypeHierarchy::template of<::Smp::ICollection<::Smp::IParameter>>(),
+
+        TypeHierarchy::template of<::Smp::ICollection<::Smp::IOperation>>(),
+
+        TypeHierarchy::template of<::Smp::ICollection<::Smp::IEntryPoint>>(),
+
+        TypeHierarchy::template of<::Smp::ICollection<::Smp::IProperty>>(),
+
+        TypeHierarchy::template of<::Smp::ICollection<::Smp::IEventSink>>(),
+
+        TypeHierarchy::template of<::Smp::ICollection<::Smp::IEventSource>>(),
+
+        TypeHierarchy::template of<::Smp::ICollection<::Smp::IFailure>>(),
+
+        TypeHierarchy::template of<::Smp::ICollection<::Smp::IField>>(),
+
+        TypeHierarchy::template of<::Smp::ICollection<::Smp::IContainer>>(),
+
+        TypeHierarchy::template of<::Smp::ICollection<::Smp::IReference>>(),
+
+        TypeHierarchy::template of<::Smp::ICollection<::Smp::IComponent>>(),
+
+        TypeHierarchy::template of<::Smp::ICollection<::Smp::IModel>>(),
+
+        TypeHierarchy::template of<::Smp::ICollection<::Smp::IService>>(),
+
         TypeHierarchy::template of<::Smp::Publication::IType>({
             // IType
             TypeHierarchy::template of<::Smp::Publication::IArrayType>(),
@@ -749,6 +780,7 @@ This exception is raised when trying to publish a field with invalid type.
   RegisterIObject(smp);
 
   RegisterIFactory(smp);
+  RegisterICollection<::Smp::IFactory>(smp, "FactoryCollection");
 
   RegisterIParameter(smp);
   RegisterICollection<::Smp::IParameter>(smp, "ParameterCollection");
-- 
2.43.0


From cf058d9b3bca9b09a7576e2d2834579e2e83da90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:34 +0000
Subject: [PATCH 89/93] fix: write type hints Python can read and survive
 unpublished components

---
 src/python/Smp/ISimulatorBinding.h | 62 +++++++++++++++++++++++-------
 1 file changed, 49 insertions(+), 13 deletions(-)

diff --git a/src/python/Smp/ISimulatorBinding.h b/src/python/Smp/ISimulatorBinding.h
index dfd8468..c5f35f8 100644
--- a/src/python/Smp/ISimulatorBinding.h
+++ b/src/python/Smp/ISimulatorBinding.h
@@ -122,9 +122,34 @@ void Run(::Smp::ISimulator &self, double ns, double us, double ms, double s,
 
 constexpr const char *INDENT = "    ";
 
+/// An object named like a Python keyword cannot be used as an attribute
+inline bool HasAttributeName(const ::Smp::IObject *obj) {
+  return GetPythonName(obj) == obj->GetName();
+}
+
+/// Escape a text for a Python string literal
+inline std::string EscapePython(::Smp::String8 text) {
+  std::string result;
+  for (; *text != 0; ++text) {
+    if (*text == '\\' || *text == '"') {
+      result += '\\';
+    }
+    if (*text == '\r') {
+      result += "\\r"; // a plain one would be read as a line feed
+    } else {
+      result += *text;
+    }
+  }
+  return result;
+}
+
 void generate(std::ostream &fs, const std::string &indent,
               const ::Smp::IObject *obj) {
 
+  if (!dynamic_cast<const ::Smp::ISimulator *>(obj) && !HasAttributeName(obj)) {
+    return;
+  }
+
   std::stringstream bases;
 
   std::stringstream body;
@@ -165,14 +190,19 @@ void generate(std::ostream &fs, const std::string &indent,
             dynamic_cast<const ::Smp::IDynamicInvocation *>(component)) {
       bases << "ecss_smp.Smp.IDynamicInvocation, ";
 
-      for (const auto *operation : *dynamiqueInvocation->GetOperations()) {
-        body << indent + INDENT << "def " << operation->GetName() << "(self, "
-             << "): ...\n";
-      }
-      for (const auto *property : *dynamiqueInvocation->GetProperties()) {
-        body << indent + INDENT << property->GetName()
-             << ": ecss_smp.Smp.IProperty\n";
-      }
+      if (const auto *operations = dynamiqueInvocation->GetOperations())
+        for (const auto *operation : *operations) {
+          if (HasAttributeName(operation))
+            body << indent + INDENT << "def " << operation->GetName()
+                 << "(self, "
+                 << "): ...\n";
+        }
+      if (const auto *properties = dynamiqueInvocation->GetProperties())
+        for (const auto *property : *properties) {
+          if (HasAttributeName(property))
+            body << indent + INDENT << property->GetName()
+                 << ": ecss_smp.Smp.IProperty\n";
+        }
     }
     if (const auto *eventConsumer =
             dynamic_cast<const ::Smp::IEventConsumer *>(component)) {
@@ -180,6 +210,8 @@ void generate(std::ostream &fs, const std::string &indent,
 
       if (const auto *eventSinks = eventConsumer->GetEventSinks())
         for (const auto *eventSink : *eventSinks) {
+          if (!HasAttributeName(eventSink))
+            continue;
           body << indent + INDENT << eventSink->GetName()
                << ": ecss_smp.Smp.IEventSink\n";
           body << "\n";
@@ -191,6 +223,8 @@ void generate(std::ostream &fs, const std::string &indent,
 
       if (const auto *eventSources = eventProvider->GetEventSources())
         for (const auto *eventSource : *eventSources) {
+          if (!HasAttributeName(eventSource))
+            continue;
           body << indent + INDENT << eventSource->GetName()
                << ": ecss_smp.Smp.IEventSource\n";
           body << "\n";
@@ -200,8 +234,9 @@ void generate(std::ostream &fs, const std::string &indent,
       bases << "ecss_smp.Smp.ILinkingComponent, ";
     }
 
-    for (const auto *field : *component->GetFields())
-      generate(body, indent + INDENT, field);
+    if (const auto *fields = component->GetFields())
+      for (const auto *field : *fields)
+        generate(body, indent + INDENT, field);
   }
 
   if (const auto *composite = dynamic_cast<const ::Smp::IComposite *>(obj)) {
@@ -224,8 +259,9 @@ void generate(std::ostream &fs, const std::string &indent,
     bases << "ecss_smp.Smp.IEntryPointPublisher, ";
 
     for (const auto *entryPoint : *entryPointPublisher->GetEntryPoints())
-      body << indent + INDENT << entryPoint->GetName()
-           << ": ecss_smp.Smp.IEntryPoint\n";
+      if (HasAttributeName(entryPoint))
+        body << indent + INDENT << entryPoint->GetName()
+             << ": ecss_smp.Smp.IEntryPoint\n";
   }
 
   if (dynamic_cast<const ::Smp::IPersist *>(obj)) {
@@ -279,7 +315,7 @@ void generate(std::ostream &fs, const std::string &indent,
     fs << "\n";
     fs << indent << obj->GetName() << ": __" << obj->GetName() << "\n";
     if (obj->GetDescription()[0] != 0)
-      fs << indent << R"(""")" << obj->GetDescription() << R"("""
+      fs << indent << R"(""")" << EscapePython(obj->GetDescription()) << R"("""
 )";
     fs << "\n";
   }
-- 
2.43.0


From 810e4b5133412c65d36d889d802e36c53e6e26cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:34 +0000
Subject: [PATCH 90/93] fix: async and await are Python keywords

---
 src/python/ecss_smp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/ecss_smp.cpp b/src/python/ecss_smp.cpp
index 6a4fad7..c991bce 100644
--- a/src/python/ecss_smp.cpp
+++ b/src/python/ecss_smp.cpp
@@ -579,7 +579,7 @@ const std::set<std::string, std::less<>> reservedPythonKeywords{
     "return",  "True",     "elif",     "in",     "try",    "and",  "else",
     "is",      "while",    "as",       "except", "lambda", "with", "assert",
     "finally", "nonlocal", "yield",    "break",  "for",    "not",  "class",
-    "from",    "or",       "continue", "global", "pass"};
+    "from",    "or",       "continue", "global", "pass",   "async", "await"};
 
 std::string GetPythonName(const ::Smp::IObject *obj) {
   const auto *name = obj->GetName();
-- 
2.43.0


From 8dbe45b523fc8489ceb8484fb0af61e8f420eebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:13 +0000
Subject: [PATCH 91/93] fix: limit a target speed that is not a number

---
 src/Xsmp/Services/XsmpScheduler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index d496624..6fe105a 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -130,7 +130,8 @@ void XsmpScheduler::DoDisconnect() {
   }
 }
 void XsmpScheduler::SetTargetSpeed(double speed) {
-  if (speed < 0.01) {
+  // also limit a value that is not a number
+  if (!(speed >= 0.01)) {
     _targetSpeed = 0.01;
   } else if (speed > 100.) {
     _targetSpeed = 100.;
-- 
2.43.0


From cd7b077476ae6050efc4714009ce8378638803c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:58 +0000
Subject: [PATCH 92/93] fix: do not abort a run when a clock is set while the
 time advances

---
 src/Xsmp/Services/XsmpScheduler.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/Xsmp/Services/XsmpScheduler.cpp b/src/Xsmp/Services/XsmpScheduler.cpp
index 6fe105a..3377859 100644
--- a/src/Xsmp/Services/XsmpScheduler.cpp
+++ b/src/Xsmp/Services/XsmpScheduler.cpp
@@ -23,6 +23,7 @@
 #include <Smp/Services/IEventManager.h>
 #include <Smp/Services/ILogger.h>
 #include <Smp/Services/ITimeKeeper.h>
+#include <Smp/Services/InvalidSimulationTime.h>
 #include <Smp/Services/TimeKind.h>
 #include <Smp/SimulatorStateKind.h>
 #include <Xsmp/Exception.h>
@@ -806,12 +807,20 @@ void XsmpScheduler::ExecuteUntilHold() {
                                   std::int64_t>(std::min(remaining, maxDelay))});
         continue;
       }
-      delay = static_cast<::Smp::Duration>(remaining);
 
       // change the simulation time
       if (duration > 0) {
-        timeKeeper->SetSimulationTime(nextTime);
+        try {
+          timeKeeper->SetSimulationTime(nextTime);
+        } catch (const ::Smp::Services::InvalidSimulationTime &e) {
+          if (e.GetMaximumTime() >= nextTime) {
+            throw;
+          }
+          // another clock has just been set: an event is due before
+          continue;
+        }
       }
+      delay = static_cast<::Smp::Duration>(remaining);
       break;
     }
 
-- 
2.43.0


From 9a19135fcd288ad3fd47192245fc68dac2788fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:43 +0000
Subject: [PATCH 93/93] fix: print the smallest Duration without overflowing

---
 src/Xsmp/Duration.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/Xsmp/Duration.cpp b/src/Xsmp/Duration.cpp
index 2ae859b..27552e8 100644
--- a/src/Xsmp/Duration.cpp
+++ b/src/Xsmp/Duration.cpp
@@ -15,8 +15,11 @@
 #include <Smp/PrimitiveTypes.h>
 #include <Xsmp/Duration.h>
 #include <chrono>
+#include <cstdint>
 #include <date/date.h>
 #include <iostream>
+#include <limits>
+#include <ratio>
 #include <sstream>
 #include <string>
 #include <string_view>
@@ -66,6 +69,15 @@ std::ostream &Duration::to_stream(std::ostream &outputStream,
 }
 
 std::ostream &operator<<(std::ostream &outputStream, const Duration &duration) {
+  const ::Smp::Duration value = duration;
+  if (value == std::numeric_limits<::Smp::Duration>::min()) {
+    // its opposite does not fit a Duration
+    outputStream << '-';
+    return date::to_stream(outputStream, "%T",
+                           std::chrono::duration<std::uint64_t, std::nano>{
+                               std::uint64_t{0} -
+                               static_cast<std::uint64_t>(value)});
+  }
   return date::to_stream(outputStream, "%T",
                          static_cast<std::chrono::nanoseconds>(duration));
 }
-- 
2.43.0

