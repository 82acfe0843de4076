From 4443c710394a6d39b585a5dce08b5f376ea10ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:28 +0000
Subject: [PATCH 01/36] fix: keep the sign of a RationalConstant built with a
 negative denominator

---
 src/core/ekat_rational_constant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/ekat_rational_constant.hpp b/src/core/ekat_rational_constant.hpp
index 345ac95..3c05272 100644
--- a/src/core/ekat_rational_constant.hpp
+++ b/src/core/ekat_rational_constant.hpp
@@ -155,7 +155,7 @@ private:
   static constexpr iType fix_num(const iType n, const iType d) {
     if (d==0)
       throw std::invalid_argument("[RationalConstant] Cannot divide by 0");
-    return n==0 ? n : n / gcd(abs(n),abs(d));
+    return n==0 ? n : (d<0 ? fix_num(-n,-d) : n / gcd(abs(n),abs(d)));
   }
 
   static constexpr iType fix_den(const iType n, const iType d) {
-- 
2.43.0


From 9469b9ba0a1703ae4648f1dc22deeeb40c4fad11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:28 +0000
Subject: [PATCH 02/36] fix: positive powers of a zero RationalConstant are
 zero instead of throwing

---
 src/core/ekat_rational_constant.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/ekat_rational_constant.hpp b/src/core/ekat_rational_constant.hpp
index 3c05272..06d463a 100644
--- a/src/core/ekat_rational_constant.hpp
+++ b/src/core/ekat_rational_constant.hpp
@@ -201,9 +201,10 @@ template<typename IntType>
 constexpr
 typename std::enable_if<std::is_integral<IntType>::value,RationalConstant>::type
 pow (const RationalConstant& x, const IntType p) {
-  // Three main cases:
+  // Four main cases:
   //  - p<0: compute the -p power of 1/x
   //  - p=0: base case, return 1 if x!=0, throw if x==0
+  //  - p=1: base case, return x (so that positive powers of 0 never reach 0^0)
   //  - recursion step: x^p = x * x^{p-1}
   // Note: recall that expressions like "blah1, blah2" executes both blah1 and blah2 and return blah2.
   if (p<0) {
@@ -213,6 +214,8 @@ pow (const RationalConstant& x, const IntType p) {
       throw std::invalid_argument("[RationalConstant] Cannot compute 0^0.");
 
     return RationalConstant::one();
+  } else if (p==1) {
+    return x;
   } else {
     return (p&1)!=0 ? x*pow(x*x,p>>1) : pow(x*x,p>>1);
   }
-- 
2.43.0


From 535e656b29116b46226e1ecae2565f2586870c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:52 +0000
Subject: [PATCH 03/36] fix: print all digits of negative and large
 RationalConstant values in string_repr

---
 src/core/ekat_rational_constant.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/ekat_rational_constant.hpp b/src/core/ekat_rational_constant.hpp
index 06d463a..faf2f18 100644
--- a/src/core/ekat_rational_constant.hpp
+++ b/src/core/ekat_rational_constant.hpp
@@ -81,7 +81,8 @@ struct RationalConstant {
   {
     std::array<char,N> s = {'\0'};
     int pos = 0;
-    int nd_num = ndigits(num);
+    const iType absnum = num<0 ? -num : num;
+    int nd_num = ndigits(absnum);
     int nd_den = ndigits(den);
 
     assert (N>(nd_num+nd_den+(num<0 ? 1 : 0)));
@@ -89,7 +90,6 @@ struct RationalConstant {
     if (num<0) {
       s[pos++] = '-';
     }
-    int absnum = num<0 ? -num : num;
     for (int i=(nd_num-1); i>=0; --i) {
       s[pos++] = digit2char(get_digit(absnum,i));
     }
@@ -142,8 +142,8 @@ private:
     return n<10 ? 1 : 1 + ndigits(n/10);
   }
 
-  static constexpr int get_digit(int n, int ten_pow_exp) {
-    int ten_pow = 1;
+  static constexpr int get_digit(iType n, int ten_pow_exp) {
+    iType ten_pow = 1;
     for (int i=0; i<ten_pow_exp; ++i) {
       ten_pow *= 10;
     }
-- 
2.43.0


From cde8627bc3a0ca2e79edae2761b281b6be5b47de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:52 +0000
Subject: [PATCH 04/36] fix: copy the whole exponent, and nothing past it, in
 ScalingFactor::string_repr

---
 src/core/ekat_scaling_factor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/ekat_scaling_factor.hpp b/src/core/ekat_scaling_factor.hpp
index ad0fe16..1363a35 100644
--- a/src/core/ekat_scaling_factor.hpp
+++ b/src/core/ekat_scaling_factor.hpp
@@ -74,7 +74,7 @@ struct ScalingFactor {
       if (e_den_or_neg) {
         out[pos++] = '(';
       }
-      for (int i=0; i<sz1; ++i) {
+      for (int i=0; i<sz2; ++i) {
         out[pos++] = e_repr[i];
       }
       if (e_den_or_neg) {
-- 
2.43.0


From 376c7a5cb16252f7a02da6412d57944b4032986f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:12 +0000
Subject: [PATCH 05/36] fix: do not mix up values of opposite sign when
 comparing or taking roots of ScalingFactor

---
 src/core/ekat_scaling_factor.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/core/ekat_scaling_factor.hpp b/src/core/ekat_scaling_factor.hpp
index 1363a35..57d413a 100644
--- a/src/core/ekat_scaling_factor.hpp
+++ b/src/core/ekat_scaling_factor.hpp
@@ -116,7 +116,10 @@ private:
     else if (b.num<0 && e.den%2==0)
       throw std::invalid_argument("[ScalingFactor] Cannot compute positive roots of negative numbers");
 
-    return e==zero ? base_and_exp{{one, one}} : base_and_exp{{b,e}};
+    // Even powers of a negative base are stored with the (positive) opposite base, so that roots of
+    // them are the positive ones. After this, the value is negative if and only if the base is.
+    return e==zero ? base_and_exp{{one, one}}
+                   : (b.num<0 && e.num%2==0 ? base_and_exp{{-b,e}} : base_and_exp{{b,e}});
   }
 };
 
@@ -125,7 +128,9 @@ constexpr bool operator== (const ScalingFactor& lhs, const ScalingFactor& rhs) {
   //    (a/b)^(c/d)==(x/y)^(w/z)
   // is equivalent to
   //    (a/b)^(cz) == (x/w)^(wd)
-  return pow(lhs.base,lhs.exp.num*rhs.exp.den)==pow(rhs.base,rhs.exp.num*lhs.exp.den);
+  // as long as the two sides have the same sign (z or d may be even)
+  return (lhs.base.num<0)==(rhs.base.num<0) &&
+         pow(lhs.base,lhs.exp.num*rhs.exp.den)==pow(rhs.base,rhs.exp.num*lhs.exp.den);
 }
 
 constexpr bool operator== (const ScalingFactor& lhs, const RationalConstant& rhs) {
-- 
2.43.0


From 0dea373ff5cef21e6a361e3ab450c215c29dfd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:12 +0000
Subject: [PATCH 06/36] fix: reject products of negative scaling factors with
 even roots instead of losing the sign

---
 src/core/ekat_scaling_factor.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/core/ekat_scaling_factor.hpp b/src/core/ekat_scaling_factor.hpp
index 57d413a..8287599 100644
--- a/src/core/ekat_scaling_factor.hpp
+++ b/src/core/ekat_scaling_factor.hpp
@@ -145,6 +145,15 @@ constexpr bool operator!= (const ScalingFactor& lhs, const ScalingFactor& rhs) {
   return !(lhs==rhs);
 }
 
+// Numerator of the exponent times q, applied to the base. If x is negative and q is even, the sign of x
+// would be lost, and the value we are after (the product of a negative number and a square root) is not
+// a rational power of a rational number.
+constexpr RationalConstant pow_num (const ScalingFactor& x, const RationalConstant::iType q) {
+  if (x.base.num<0 && q%2==0)
+    throw std::invalid_argument("[ScalingFactor] Cannot combine negative numbers with even roots");
+  return pow(x.base,x.exp.num*q);
+}
+
 constexpr ScalingFactor operator* (const ScalingFactor& lhs, const ScalingFactor& rhs) {
   // If base or exp are the same, we can use powers properties,
   // otherwise, recall that, with all terms being integers,
@@ -157,7 +166,7 @@ constexpr ScalingFactor operator* (const ScalingFactor& lhs, const ScalingFactor
             ? ScalingFactor(lhs.base,lhs.exp+rhs.exp)
             : (lhs.exp==rhs.exp
                 ? ScalingFactor(lhs.base*rhs.base,lhs.exp)
-                : ScalingFactor( pow(lhs.base,lhs.exp.num*rhs.exp.den) * pow(rhs.base,rhs.exp.num*lhs.exp.den),
+                : ScalingFactor( pow_num(lhs,rhs.exp.den) * pow_num(rhs,lhs.exp.den),
                                  RationalConstant(iType(1),lhs.exp.den*rhs.exp.den)));
 }
 
@@ -181,7 +190,7 @@ constexpr ScalingFactor operator/ (const ScalingFactor& lhs, const ScalingFactor
             ? ScalingFactor(lhs.base,lhs.exp-rhs.exp)
             : (lhs.exp==rhs.exp
                 ? ScalingFactor(lhs.base/rhs.base,lhs.exp)
-                : ScalingFactor( pow(lhs.base,lhs.exp.num*rhs.exp.den) / pow(rhs.base,rhs.exp.num*lhs.exp.den),
+                : ScalingFactor( pow_num(lhs,rhs.exp.den) / pow_num(rhs,lhs.exp.den),
                                  RationalConstant(iType(1),lhs.exp.den*rhs.exp.den)));
 }
 
-- 
2.43.0


From 3287539fc8a63b944488abd633518ac08202a09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:37 +0000
Subject: [PATCH 07/36] fix: do not read past the end of the string when
 trimming null characters

---
 src/core/ekat_string_utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/ekat_string_utils.cpp b/src/core/ekat_string_utils.cpp
index 656acdf..579fc11 100644
--- a/src/core/ekat_string_utils.cpp
+++ b/src/core/ekat_string_utils.cpp
@@ -40,11 +40,11 @@ std::string trim (const std::string& s, const char c) {
   if (s=="") {
     return s;
   }
+  int size = s.size();
   int nl = 0;
-  while (s[nl] == c) {
+  while (nl<size && s[nl] == c) {
     ++nl;
   }
-  int size = s.size();
   int nt = 0;
   while (nt<size && s[size-nt-1] == c) {
     ++nt;
-- 
2.43.0


From 564896bced96afd1a563af98651ee7943d423314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:37 +0000
Subject: [PATCH 08/36] fix: reject nested lists with entries after a closed
 list or text after the outermost list

---
 src/core/ekat_string_utils.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/core/ekat_string_utils.cpp b/src/core/ekat_string_utils.cpp
index 579fc11..20c02c1 100644
--- a/src/core/ekat_string_utils.cpp
+++ b/src/core/ekat_string_utils.cpp
@@ -163,6 +163,14 @@ bool valid_nested_list_format (const std::string& str)
       return false;
     }
 
+    // After ']' we need a ',' or another ']', not a name
+    if (last_match==close && pos!=start) {
+#ifdef DEBUG_OUTPUT
+      std::cout << "Input string '" << str << "' contains an entry right after a close.\n";
+#endif
+      return false;
+    }
+
     // We can open a sublist if a) at the beginning of a list,
     // or after a comma. No '][' allowed.
     if (str[pos]==open && str[pos-1]!=',' && str[pos-1]!=open) {
@@ -179,8 +187,8 @@ bool valid_nested_list_format (const std::string& str)
       --num_open;
     }
 
-    // Cannot close more than you open
-    if (num_open<0) {
+    // Cannot close more than you open, nor have anything after the outermost list
+    if (num_open<0 || (num_open==0 && pos+1!=str.size())) {
 #ifdef DEBUG_OUTPUT
       std::cout << "Input string '" << str << "' open/closed brackets don't balance.\n";
 #endif
-- 
2.43.0


From 97ee87fbb21782b610c9c08f73cf234fc7b9db6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:37 +0000
Subject: [PATCH 09/36] fix: find every delimited occurrence of the atomic
 string, and erase nothing else, in gather_tokens

---
 src/core/ekat_string_utils.cpp | 65 +++++++++-------------------------
 1 file changed, 17 insertions(+), 48 deletions(-)

diff --git a/src/core/ekat_string_utils.cpp b/src/core/ekat_string_utils.cpp
index 20c02c1..e8bab71 100644
--- a/src/core/ekat_string_utils.cpp
+++ b/src/core/ekat_string_utils.cpp
@@ -371,57 +371,26 @@ std::list<std::string> gather_tokens(const std::string& s,
   }
 
   if (atomic!="") {
-    auto pos = s.find(atomic);
-    if (pos==std::string::npos) {
-      // The atomic string wasn't found.
-      return gather_tokens(s,delimiters,"");
-    }
-    // The atomic string was found. Add it as a token, then remove if from
-    // the input string, and run again on what's left.
-    // But first, we need to check that the string is delimited left and right
-    // by a delimiter (or string boundaries), otherwise it doesn't count.
-    auto slen = s.size();
-    auto alen = atomic.size();
-
-    // These lambda implement exactly what you think they do,
-    // but are more verbose than the corresponding checks when used.
-    auto at_s_start = [&] () -> bool {
-      return pos==0;
-    };
-    auto at_s_end = [&] () -> bool {
-      return (pos+alen)==slen;
-    };
-    auto delim_before = [&] () -> bool {
-      return s.find_first_of(delim_str,pos-1)==(pos-1);
-    };
-    auto delim_after = [&] () -> bool {
-      return s.find_first_of(delim_str,pos+alen)==(pos+alen);
+    // Look for occurrences of the atomic string that are delimited left and right by
+    // a delimiter (or string boundaries); others don't count. Add it as a token, and
+    // tokenize what's on its left and what's on its right.
+    auto is_delim = [&] (const size_t i) -> bool {
+      return delim_str.find(s[i])!=std::string::npos;
     };
-
-    if ( !at_s_start() && !delim_before() ) {
-      // The atomic string is not at the start of s, but it is
-      // not preceeded by a delimiter.
-      // So fall back to the case where we don't search for atomic
-      return gather_tokens(s,delimiters,"");
-    } else if ( !at_s_end() && !delim_after() ) {
-      // The atomic string is not at the end of s, but it is
-      // not followed by a delimiter.
-      // So fall back to the case where we don't search for atomic
-      return gather_tokens(s,delimiters,"");
+    const auto alen = atomic.size();
+    for (auto pos = s.find(atomic); pos!=std::string::npos; pos = s.find(atomic,pos+1)) {
+      if ( (pos==0 || is_delim(pos-1)) && (pos+alen==s.size() || is_delim(pos+alen)) ) {
+        all_tokens.push_back(atomic);
+
+        // Note: splice is better than manual push back, since it only moves a couple of ptrs.
+        all_tokens.splice(all_tokens.end(),gather_tokens(s.substr(0,pos),delimiters,""));
+        all_tokens.splice(all_tokens.end(),gather_tokens(s.substr(pos+alen),delimiters,atomic));
+        return all_tokens;
+      }
     }
 
-    // If we didn't hit any of the previous return statements, then the atomic
-    // substring was found, and it is a sub-token.
-    all_tokens.push_back(atomic);
-
-    std::string s_mod(s);
-    auto erase_begin = at_s_start() ? 0 : pos-1;
-    auto erase_len   = delim_after() ? alen+1 : alen;
-    s_mod.erase(erase_begin,erase_len);
-
-    // Note: splice is better than manual push back, since it only moves a couple of ptrs.
-    all_tokens.splice(all_tokens.end(),gather_tokens(s_mod,delimiters,atomic));
-    return all_tokens;
+    // The atomic string wasn't found as a sub-token.
+    return gather_tokens(s,delimiters,"");
   }
 
   std::size_t prev = 0, pos;
-- 
2.43.0


From 748744cdcf365205a5f706a05ee2e37032abfed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:37 +0000
Subject: [PATCH 10/36] fix: use the size of the union of the token sets in
 jaccard_similarity

---
 src/core/ekat_string_utils.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/core/ekat_string_utils.cpp b/src/core/ekat_string_utils.cpp
index e8bab71..e415891 100644
--- a/src/core/ekat_string_utils.cpp
+++ b/src/core/ekat_string_utils.cpp
@@ -437,9 +437,6 @@ double jaccard_similarity (const std::string& s1, const std::string& s2,
     // We already took care of the case were we don't tokenize either one,
     // so we can be sure tokenize_s2 is true.
     // S2 is a single token
-      if (s2=="zenith_angle") {
-        printf("zenith_angle\n");
-      }
     s1_tokens.push_back(s1);
     s2_tokens = gather_tokens(s2, delimiters, s1);
   }
@@ -456,8 +453,10 @@ double jaccard_similarity (const std::string& s1, const std::string& s2,
   // The Jaccard index is the ratio of the size of the intersection to that
   // of the union.
   double int_size = static_cast<double>(s_intersection.size());
-  double un_size = static_cast<double>(s1_tokens.size() + s2_tokens.size() - int_size);
-  return int_size / un_size;
+  double un_size = static_cast<double>(s1_set.size() + s2_set.size() - int_size);
+
+  // If there are no tokens at all, the two (empty) sets are equal
+  return un_size==0 ? 1 : int_size / un_size;
 }
 
 // ===================== Case Insensitive String ================== //
-- 
2.43.0


From 8e5dbc9adb8092142e16ba8d1d1e1487cfe6a071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:39 +0000
Subject: [PATCH 11/36] fix: assigning a ParameterList replaces the previous
 content instead of merging with it

---
 src/core/ekat_parameter_list.cpp | 19 ++++++++-----------
 src/parser/ekat_yaml.cpp         |  2 +-
 2 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/core/ekat_parameter_list.cpp b/src/core/ekat_parameter_list.cpp
index fd07ebf..be0eaf5 100644
--- a/src/core/ekat_parameter_list.cpp
+++ b/src/core/ekat_parameter_list.cpp
@@ -20,16 +20,11 @@ ParameterList (const ParameterList& src)
 
 ParameterList& ParameterList::operator= (const ParameterList& src)
 {
-  if (this!=&src) {
-    m_name = src.m_name;
-    for (const auto& [name,p] : src.m_params) {
-      m_params[name] = p;
-    }
-
-    for (const auto& [name,sl] : src.m_sublists) {
-      m_sublists[name] = sl;
-    }
-  }
+  // Copy first: src may be one of our own sublists. Nothing of our previous content survives.
+  ParameterList copy(src);
+  m_name.swap(copy.m_name);
+  m_params.swap(copy.m_params);
+  m_sublists.swap(copy.m_sublists);
   return *this;
 }
 
@@ -73,7 +68,9 @@ void ParameterList::print(std::ostream& out, const int indent, const int indent_
 void ParameterList::import (const ParameterList& src)
 {
   for (const auto& [name,sl] : src.m_sublists) {
-    m_sublists[name] = sl;
+    auto& my_sl = m_sublists[name];
+    my_sl.import(sl);
+    my_sl.m_name = sl.m_name;
   }
   for (const auto& [name,p] : src.m_params) {
     m_params[name] = p;
diff --git a/src/parser/ekat_yaml.cpp b/src/parser/ekat_yaml.cpp
index be392c4..ec4f7b1 100644
--- a/src/parser/ekat_yaml.cpp
+++ b/src/parser/ekat_yaml.cpp
@@ -233,7 +233,7 @@ void parse_yaml_file (const std::string& fname, ParameterList& params) {
   }
   ParameterList temp(params.name());
   parse_node<YAML::NodeType::Map> (root, temp.name(), temp);
-  params = temp.sublist(params.name());
+  params.import(temp.sublist(params.name()));
 }
 
 // =============================== WRITE ============================ //
-- 
2.43.0


From 02b4a70e917820c419a9ef21e72e88cc9440aa02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:01 +0000
Subject: [PATCH 12/36] fix: make map_key_iterator dereferenceable (the keys of
 a map are const)

---
 src/core/ekat_std_map_key_iterator.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/ekat_std_map_key_iterator.hpp b/src/core/ekat_std_map_key_iterator.hpp
index 979acbf..19042a1 100644
--- a/src/core/ekat_std_map_key_iterator.hpp
+++ b/src/core/ekat_std_map_key_iterator.hpp
@@ -32,8 +32,9 @@ public:
   using iterator_category = std::bidirectional_iterator_tag;
   using difference_type   = std::ptrdiff_t;
   using value_type        = Key;
-  using pointer           = value_type*;
-  using reference         = value_type&;
+  // Note: keys in a map are always const
+  using pointer           = const value_type*;
+  using reference         = const value_type&;
 
   using map_iterator = typename std::map<Key,Value>::iterator;
 
-- 
2.43.0


From 34cbf4484d42649b3a344ac53478717da1d0e6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:59 +0000
Subject: [PATCH 13/36] fix: pack op= scalar and set(mask,a,b) use the scalar's
 value even if it is an entry of the pack

---
 src/pack/ekat_pack.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pack/ekat_pack.hpp b/src/pack/ekat_pack.hpp
index 0217263..1f9e5e8 100644
--- a/src/pack/ekat_pack.hpp
+++ b/src/pack/ekat_pack.hpp
@@ -207,7 +207,7 @@ bool operator == (const Mask<n>& m1, const Mask<n>& m2) {
     std::is_constructible<scalar,S>::value,                 \
     Pack&                                                   \
   >                                                         \
-  operator op (const S& a) {                                \
+  operator op (const S a) {                                 \
     vector_simd for (int i = 0; i < n; ++i) d[i] op a;      \
     return *this;                                           \
   }
@@ -319,7 +319,7 @@ struct Pack {
   }
 
   KOKKOS_FORCEINLINE_FUNCTION
-  Pack& set (const Mask<n>& mask, const scalar& v_true, const scalar& v_false) {
+  Pack& set (const Mask<n>& mask, const scalar v_true, const scalar v_false) {
     vector_simd
     for (int i = 0; i < n; ++i) {
       if (mask[i])
-- 
2.43.0


From 9627130a98c7f7f87ff5cb67039b0eaf5659c5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:28 +0000
Subject: [PATCH 14/36] fix: index_and_shift delivers the unshifted entry even
 if the shifted index is out of range (debug builds)

---
 src/pack/ekat_pack_kokkos.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pack/ekat_pack_kokkos.hpp b/src/pack/ekat_pack_kokkos.hpp
index dc57138..d6f2bca 100644
--- a/src/pack/ekat_pack_kokkos.hpp
+++ b/src/pack/ekat_pack_kokkos.hpp
@@ -88,11 +88,11 @@ index_and_shift (const Array1& a, const IdxPack& i0, Pack<typename Array1::non_c
 #endif
   vector_simd for (int i = 0; i < IdxPack::n; ++i) {
     const auto i0i = i0[i];
+    index[i]       = a(i0i);
 #ifndef NDEBUG
     // We don't want to trigger kokkos OOB errors if they are on
     if ((i0i+Shift) < 0 || (i0i+Shift)>=static_cast<int>(a.size())) continue;
 #endif
-    index[i]       = a(i0i);
     index_shift[i] = a(i0i + Shift);
   }
 }
-- 
2.43.0


From 3ceedd12da2ac86208f8da0d7fd64793aac2eeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:06 +0000
Subject: [PATCH 15/36] fix: packed non-serialized reduction over a range in
 the interior of one pack

---
 src/algorithm/ekat_reduction_utils.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/algorithm/ekat_reduction_utils.hpp b/src/algorithm/ekat_reduction_utils.hpp
index 8ed6bc1..8ad3c67 100644
--- a/src/algorithm/ekat_reduction_utils.hpp
+++ b/src/algorithm/ekat_reduction_utils.hpp
@@ -104,23 +104,27 @@ auto view_reduction (const TeamMember& team,
     // For packed case, check if we need to treat first/last packs separately
 
     const bool has_garbage_begin = begin % N != 0;
-    const bool has_garbage_end   =   end % N != 0;
     const int  pack_loop_begin   = (has_garbage_begin ? begin/N + 1 : begin/N);
     const int  pack_loop_end     = end/N;
 
+    // If begin and end are in the interior of the same pack, the code for the first pack does it all
+    const bool single_pack       = pack_loop_begin > pack_loop_end;
+    const bool has_garbage_end   = end % N != 0 && not single_pack;
+
     // If first pack has garbage, we will not include it in the below reduction,
     // so manually add the first pack (only the non-garbage part)
     if (has_garbage_begin) {
       const auto temp_input = input(pack_loop_begin-1);
       const int first_indx = begin % N;
-      for (int j=first_indx; j<N; ++j) {
+      const int last_indx  = single_pack ? end % N : N;
+      for (int j=first_indx; j<last_indx; ++j) {
         result += temp_input[j];
       }
     }
 
     // Complete packs to be reduced. If Serialize, reduce each pack first, then
     // sum into result. Else, sum up packs, then reduce the packed sum into result.
-    if (pack_loop_begin != pack_loop_end) {
+    if (pack_loop_begin < pack_loop_end) {
       auto temp = impl::parallel_reduce<false,PackType>(
           team, pack_loop_begin, pack_loop_end,
           [&](const int k, PackType& local_packed_sum) {
-- 
2.43.0


From cd6c112bce31c5bb44cb215884aef66848bddf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:15 +0000
Subject: [PATCH 16/36] fix: WorkspaceManager::reset_internals resets the free
 list also in release builds, and the number of used blocks in debug builds

---
 src/kokkos/ekat_workspace_impl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kokkos/ekat_workspace_impl.hpp b/src/kokkos/ekat_workspace_impl.hpp
index 0fac550..b3ba9e3 100644
--- a/src/kokkos/ekat_workspace_impl.hpp
+++ b/src/kokkos/ekat_workspace_impl.hpp
@@ -161,8 +161,9 @@ void WorkspaceManager<T, D>::reset_internals()
   Kokkos::deep_copy(m_active, false);
   Kokkos::deep_copy(m_counts, 0);
   Kokkos::deep_copy(m_high_water, 0);
-  Kokkos::deep_copy(m_next_slot, 0);
+  Kokkos::deep_copy(m_num_used, 0);
 #endif
+  Kokkos::deep_copy(m_next_slot, 0);
 
   auto policy = TeamPolicyFactory<ExeSpace>::get_default_team_policy(m_max_ws_idx, m_max_used);
   Kokkos::parallel_for(
-- 
2.43.0


From fe0dc6a87bc05471a76767c560fdd9cdcb2fe50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:15 +0000
Subject: [PATCH 17/36] fix: WorkspaceManager::report compiles in debug builds

---
 src/kokkos/ekat_workspace_impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kokkos/ekat_workspace_impl.hpp b/src/kokkos/ekat_workspace_impl.hpp
index b3ba9e3..ad377c0 100644
--- a/src/kokkos/ekat_workspace_impl.hpp
+++ b/src/kokkos/ekat_workspace_impl.hpp
@@ -106,10 +106,10 @@ void WorkspaceManager<T, D>::report() const
         }
         std::string sname(name);
         if (ws_usage_map.find(sname) == ws_usage_map.end()) {
-          ws_usage_map[sname] = Data(1, takes, releases);
+          ws_usage_map.emplace(sname, Data(1, takes, releases));
         }
         else {
-          auto& e = ws_usage_map[sname];
+          auto& e = ws_usage_map.at(sname);
           e.used += 1;
           e.takes += takes;
           e.releases += releases;
-- 
2.43.0


From 983264781634d3c7d4d833b9c07a6a6efaa04870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:18 +0000
Subject: [PATCH 18/36] fix: releasing contiguous workspace blocks keeps the
 other active blocks out of the free list

---
 src/kokkos/ekat_workspace_impl.hpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/kokkos/ekat_workspace_impl.hpp b/src/kokkos/ekat_workspace_impl.hpp
index ad377c0..c1c861e 100644
--- a/src/kokkos/ekat_workspace_impl.hpp
+++ b/src/kokkos/ekat_workspace_impl.hpp
@@ -627,6 +627,8 @@ void WorkspaceManager<T, D>::Workspace::release_many_contiguous(
 #endif
 
   Kokkos::single(Kokkos::PerTeam(m_team), [&] () {
+    // The last of the blocks is followed by what was the first free slot so far
+    m_parent.set_next_and_get_index<S>(*ptrs[N-1], m_next_slot);
     m_next_slot = m_parent.get_index<S>(*ptrs[0]);
 #ifndef NDEBUG
     for (int n = 0; n < static_cast<int>(N); ++n) {
@@ -650,18 +652,27 @@ void WorkspaceManager<T, D>::Workspace::release_macro_block(
 #endif
 
   Kokkos::single(Kokkos::PerTeam(m_team), [&] () {
-    m_next_slot = m_parent.get_index<S>(space);
-
 #ifndef NDEBUG
     change_indv_meta<S>(space, "", true);
 #endif
+    m_next_slot = m_parent.set_next_and_get_index<S>(space, m_next_slot);
   });
 
-  // Reset metadata
+  // Reset metadata. The last of the sub-blocks is followed by what was the first free
+  // slot so far, which the first sub-block remembers until then.
   m_team.team_barrier();
   Kokkos::parallel_for(
     Kokkos::TeamVectorRange(m_team, n_sub_blocks), [&] (int i) {
-      m_parent.init_slot_metadata(m_ws_idx, i+m_next_slot);
+      if (i < n_sub_blocks-1) {
+        if (i > 0) {
+          m_parent.init_slot_metadata(m_ws_idx, i+m_next_slot);
+        }
+      } else {
+        const int next = m_parent.get_next<S>(space);
+        m_parent.init_slot_metadata(m_ws_idx, m_next_slot);
+        m_parent.init_slot_metadata(m_ws_idx, i+m_next_slot);
+        reinterpret_cast<int*>(&m_parent.m_data(m_ws_idx, (i+m_next_slot)*m_parent.m_total))[1] = next;
+      }
   });
 
   // We need a barrier here so that a subsequent call to take or release
-- 
2.43.0


From fa9cfb18c928bf6eb9f07d1448c7b6721d6c40fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:18 +0000
Subject: [PATCH 19/36] fix: Workspace::take_many_and_reset resets the metadata
 of the taken blocks, too

---
 src/kokkos/ekat_workspace_impl.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kokkos/ekat_workspace_impl.hpp b/src/kokkos/ekat_workspace_impl.hpp
index c1c861e..04bcc3f 100644
--- a/src/kokkos/ekat_workspace_impl.hpp
+++ b/src/kokkos/ekat_workspace_impl.hpp
@@ -444,10 +444,10 @@ void WorkspaceManager<T, D>::Workspace::take_many_and_reset(
     *ptrs[n] = space;
   }
 
-  // We only need to reset the metadata for spaces that are being left free
+  // Reset the metadata of all spaces: earlier use may have changed that of the taken ones as well
   Kokkos::parallel_for(
-    Kokkos::TeamVectorRange(m_team, m_parent.m_max_used - N), [&] (int i) {
-      m_parent.init_slot_metadata(m_ws_idx, i+N);
+    Kokkos::TeamVectorRange(m_team, m_parent.m_max_used), [&] (int i) {
+      m_parent.init_slot_metadata(m_ws_idx, i);
     });
 
   Kokkos::single(Kokkos::PerTeam(m_team), [&] () {
-- 
2.43.0


From 15d4260f03410f28e3e141672c104ca90d2ca182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:50 +0000
Subject: [PATCH 20/36] fix: workspace contiguous and macro takes follow the
 free list

---
 src/kokkos/ekat_workspace_impl.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/kokkos/ekat_workspace_impl.hpp b/src/kokkos/ekat_workspace_impl.hpp
index 04bcc3f..654dec5 100644
--- a/src/kokkos/ekat_workspace_impl.hpp
+++ b/src/kokkos/ekat_workspace_impl.hpp
@@ -322,7 +322,9 @@ void WorkspaceManager<T, D>::Workspace::take_many_contiguous_unsafe(
   // w/in the team.
   m_team.team_barrier();
   Kokkos::single(Kokkos::PerTeam(m_team), [&] () {
-    m_next_slot += N;
+    // Follow the free list: the block after the last one taken is not
+    // necessarily the next free one.
+    m_next_slot = m_parent.get_next<S>(*ptrs[N-1]);
 #ifndef NDEBUG
     for (int n = 0; n < static_cast<int>(N); ++n) {
       change_indv_meta<S>(*ptrs[n], names[n]);
@@ -357,7 +359,12 @@ WorkspaceManager<T, D>::Workspace::take_macro_block(
   m_team.team_barrier();
 
   Kokkos::single(Kokkos::PerTeam(m_team), [&] () {
-    m_next_slot += n_sub_blocks;
+    // Follow the free list: the block after the last one taken is not
+    // necessarily the next free one.
+    if (n_sub_blocks > 0) {
+      const auto last = m_parent.get_space_in_slot<S>(m_ws_idx, m_next_slot + n_sub_blocks - 1);
+      m_next_slot = m_parent.get_next<S>(last);
+    }
 #ifndef NDEBUG
    change_indv_meta<S>(space, name);
 #endif
-- 
2.43.0


From 787416f6a10056ab580755c470c73ba9af02c5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:33 +0000
Subject: [PATCH 21/36] fix: zip works for iterators that return proxies by
 value

---
 src/core/ekat_zip.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/ekat_zip.hpp b/src/core/ekat_zip.hpp
index 2f1bb41..afd9150 100644
--- a/src/core/ekat_zip.hpp
+++ b/src/core/ekat_zip.hpp
@@ -33,7 +33,9 @@ public:
   // Dereference operator
   decltype(auto) operator*() {
     return std::apply([](Iterators... its){
-      return std::forward_as_tuple(*its...);
+      // Keep references as such, but store by value what an iterator returns by value
+      // (e.g., the proxies of vector<bool>), since it won't outlive this function
+      return std::tuple<decltype(*its)...>(*its...);
     },iterators);
   }
 
-- 
2.43.0


From 71094316604407762df861702a5d7f8a3db2085e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:26 +0000
Subject: [PATCH 22/36] fix: Comm::reset_mpi_comm stores the given communicator
 also without MPI

---
 src/core/ekat_comm_serial.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/ekat_comm_serial.cpp b/src/core/ekat_comm_serial.cpp
index 7438db1..9e4d66d 100644
--- a/src/core/ekat_comm_serial.cpp
+++ b/src/core/ekat_comm_serial.cpp
@@ -19,8 +19,9 @@ Comm::Comm(MPI_Comm mpi_comm)
 {
 }
 
-void Comm::reset_mpi_comm (MPI_Comm /* new_mpi_comm */)
+void Comm::reset_mpi_comm (MPI_Comm new_mpi_comm)
 {
+  m_mpi_comm = new_mpi_comm;
 }
 
 void Comm::barrier () const
-- 
2.43.0


From b390ce7a8ee418b03699914190ee806674d4991c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:47 +0000
Subject: [PATCH 23/36] fix: the default FPE mask of the test session compiles

---
 src/testing-support/ekat_test_session.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/testing-support/ekat_test_session.cpp b/src/testing-support/ekat_test_session.cpp
index c751d18..d4e2210 100644
--- a/src/testing-support/ekat_test_session.cpp
+++ b/src/testing-support/ekat_test_session.cpp
@@ -5,6 +5,8 @@
 #include "ekat_fpe.hpp"
 #include "ekat_arch.hpp"
 
+#include <cfenv>
+
 void ekat_initialize_test_session (int argc, char** argv, const bool print_config) {
 #ifdef EKAT_HAS_KOKKOS
   ekat::initialize_kokkos_session (argc,argv,print_config);
-- 
2.43.0


From b893e0373036e01096676999a096c415fa17e2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:31 +0000
Subject: [PATCH 24/36] fix: cyclic reduction with X of another value type than
 the matrix

The documentation allows the value type of X to differ from that of the
diagonals, but cr() accumulated terms of X in a variable of the matrix's type
and deduced one type for entries of both, so it did not compile for a scalar
matrix and packs in X.
---
 src/algorithm/ekat_tridiag.hpp | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/algorithm/ekat_tridiag.hpp b/src/algorithm/ekat_tridiag.hpp
index 52a0579..1d98a05 100644
--- a/src/algorithm/ekat_tridiag.hpp
+++ b/src/algorithm/ekat_tridiag.hpp
@@ -388,7 +388,7 @@ void cr (const TeamMember& team,
          TridiagDiag dl, TridiagDiag d, TridiagDiag du, DataArray X,
          typename std::enable_if<TridiagDiag::rank == 1>::type* = 0,
          typename std::enable_if<DataArray::rank == 1>::type* = 0) {
-  using Scalar = typename TridiagDiag::non_const_value_type;
+  using XScalar = typename DataArray::non_const_value_type;
   const int nrow = d.extent_int(0);
   assert(dl.extent_int(0) == nrow);
   assert(d. extent_int(0) == nrow);
@@ -428,9 +428,8 @@ void cr (const TeamMember& team,
     if (os >= nrow) {
       X(0) /= d(0);
     } else {
-      const auto
-        det = d(0)*d(os) - du(0)*dl(os),
-        x0 = X(0), x1 = X(os);
+      const auto det = d(0)*d(os) - du(0)*dl(os);
+      const auto x0 = X(0), x1 = X(os);
       X( 0) = (d(os)*x0 - du( 0)*x1)/det;
       X(os) = (d( 0)*x1 - dl(os)*x0)/det;
     }
@@ -446,7 +445,7 @@ void cr (const TeamMember& team,
       const int im = i - os;
       const int ip = i + os;
       assert(im >= 0 || ip < nrow);
-      Scalar f = 0;
+      XScalar f = 0;
       f += im >=   0 ? dl(i)*X(im) : 0;
       f += ip < nrow ? du(i)*X(ip) : 0;
       X(i) = (X(i) - f)/d(i);
@@ -464,6 +463,7 @@ void cr (const TeamMember& team,
          typename std::enable_if<TridiagDiag::rank == 1>::type* = 0,
          typename std::enable_if<DataArray::rank == 2>::type* = 0) {
   using Scalar = typename TridiagDiag::non_const_value_type;
+  using XScalar = typename DataArray::non_const_value_type;
   const int nrow = d.extent_int(0);
   assert(X.extent_int(0) == nrow);
   assert(dl.extent_int(0) == nrow);
@@ -511,9 +511,8 @@ void cr (const TeamMember& team,
         X(0,j) /= d(0);
     } else {
       for (int j = team_tid; j < nrhs; j += team_size) {
-        const auto
-          det = d(0)*d(os) - du(0)*dl(os),
-          x0 = X(0,j), x1 = X(os,j);
+        const auto det = d(0)*d(os) - du(0)*dl(os);
+        const auto x0 = X(0,j), x1 = X(os,j);
         X( 0,j) = (d(os)*x0 - du( 0)*x1)/det;
         X(os,j) = (d( 0)*x1 - dl(os)*x0)/det;
       }
@@ -531,7 +530,7 @@ void cr (const TeamMember& team,
         const int ip = i + os;
         assert(im >= 0 || ip < nrow);
         for (int j = team_tid; j < nrhs; j += team_size) {
-          Scalar f = 0;
+          XScalar f = 0;
           f += im >=   0 ? dl(i)*X(im,j) : 0;
           f += ip < nrow ? du(i)*X(ip,j) : 0;
           X(i,j) = (X(i,j) - f)/d(i);
@@ -549,7 +548,7 @@ void cr (const TeamMember& team,
          TridiagDiag dl, TridiagDiag d, TridiagDiag du, DataArray X,
          typename std::enable_if<TridiagDiag::rank == 2>::type* = 0,
          typename std::enable_if<DataArray::rank == 2>::type* = 0) {
-  using Scalar = typename TridiagDiag::non_const_value_type;
+  using XScalar = typename DataArray::non_const_value_type;
   const int nrow = d.extent_int(0);
   const int nrhs = X.extent_int(1);
   assert(dl.extent_int(1) == nrhs);
@@ -595,9 +594,8 @@ void cr (const TeamMember& team,
         X(0,j) /= d(0,j);
     } else {
       for (int j = team_tid; j < nrhs; j += team_size) {
-        const auto
-          det = d(0,j)*d(os,j) - du(0,j)*dl(os,j),
-          x0 = X(0,j), x1 = X(os,j);
+        const auto det = d(0,j)*d(os,j) - du(0,j)*dl(os,j);
+        const auto x0 = X(0,j), x1 = X(os,j);
         X( 0,j) = (d(os,j)*x0 - du( 0,j)*x1)/det;
         X(os,j) = (d( 0,j)*x1 - dl(os,j)*x0)/det;
       }
@@ -617,7 +615,7 @@ void cr (const TeamMember& team,
         const bool im_ok = im >= 0;
         const bool ip_ok = ip < nrow;
         for (int j = team_tid; j < nrhs; j += team_size) {
-          Scalar f = 0;
+          XScalar f = 0;
           f += im_ok ? dl(i,j)*X(im,j) : 0;
           f += ip_ok ? du(i,j)*X(ip,j) : 0;
           X(i,j) = (X(i,j) - f)/d(i,j);
-- 
2.43.0


From 6be144f0cc830e663918fdbf2c2edb295323dc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:01 +0000
Subject: [PATCH 25/36] fix: yaml sequences of logicals ignored the value of
 e.g. "True"

Logicals are recognized in any case, and a scalar True is true, but in a
sequence only "true" and "TRUE" were taken as true.
---
 src/parser/ekat_yaml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/ekat_yaml.cpp b/src/parser/ekat_yaml.cpp
index ec4f7b1..540b2bd 100644
--- a/src/parser/ekat_yaml.cpp
+++ b/src/parser/ekat_yaml.cpp
@@ -59,7 +59,7 @@ bool str2type<bool> (const std::string& s) {
 }
 template<>
 char str2type<char> (const std::string& s) {
-  return (s=="true" || s=="TRUE") ? 1 : 0;
+  return str2type<bool>(s) ? 1 : 0;
 }
 template<>
 int str2type<int> (const std::string& s) {
-- 
2.43.0


From fdf20028451fee7559411e924898ef95babf603b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:01 +0000
Subject: [PATCH 26/36] fix: yaml integers with several signs or out of range

Text such as --5 was taken for an integer, as were numbers that do not fit in
an int; the conversion then threw out of std::stoi. The former is text, the
latter can be stored as real numbers.
---
 src/parser/ekat_yaml.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/parser/ekat_yaml.cpp b/src/parser/ekat_yaml.cpp
index 540b2bd..6c7ebf6 100644
--- a/src/parser/ekat_yaml.cpp
+++ b/src/parser/ekat_yaml.cpp
@@ -28,12 +28,17 @@ bool is_type<bool> (const std::string& s) {
 }
 template<>
 bool is_type<int> (const std::string& s) {
-  if (s.size()==0) return false;
-  if (s[0]=='-') {
-    return is_type<int>(s.substr(1));
+  // At most one minus sign, followed by digits only
+  const std::string::size_type start = (s.size()>0 && s[0]=='-') ? 1 : 0;
+  if (s.size()==start || s.find_first_not_of("0123456789",start)!=std::string::npos) {
+    return false;
   }
 
-  return s.find_first_not_of("0123456789")==std::string::npos;
+  // The value must fit in an int
+  std::istringstream is(s);
+  int i;
+  is >> i;
+  return !is.fail();
 }
 
 template<>
-- 
2.43.0


From 12cf7c3096dd89a0ac8cf4a920b5f8cc765f27e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:01 +0000
Subject: [PATCH 27/36] fix: yaml real numbers that are subnormal or not finite

Reading a subnormal number threw out of std::stod. The YAML names for infinity
and nan were read as text.
---
 src/parser/ekat_yaml.cpp | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/parser/ekat_yaml.cpp b/src/parser/ekat_yaml.cpp
index 6c7ebf6..027887d 100644
--- a/src/parser/ekat_yaml.cpp
+++ b/src/parser/ekat_yaml.cpp
@@ -7,6 +7,8 @@
 #include <sstream>
 #include <fstream>
 #include <iomanip>
+#include <limits>
+#include <cmath>
 
 namespace ekat {
 
@@ -17,6 +19,20 @@ void parse_node (const YAML::Node& node,
                  const std::string& key,
                  ParameterList& list);
 
+// The YAML names for infinity and nan
+bool special_double (const std::string& s, double& d) {
+  if (s==CaseInsensitiveString(".inf") || s==CaseInsensitiveString("+.inf")) {
+    d = std::numeric_limits<double>::infinity();
+  } else if (s==CaseInsensitiveString("-.inf")) {
+    d = -std::numeric_limits<double>::infinity();
+  } else if (s==CaseInsensitiveString(".nan")) {
+    d = std::numeric_limits<double>::quiet_NaN();
+  } else {
+    return false;
+  }
+  return true;
+}
+
 // Check if input string can be interpreted as given type
 template<typename T>
 bool is_type (const std::string& s);
@@ -43,8 +59,10 @@ bool is_type<int> (const std::string& s) {
 
 template<>
 bool is_type<double> (const std::string& s) {
-  std::istringstream is(s);
   double d;
+  if (special_double(s,d)) return true;
+
+  std::istringstream is(s);
   is >> d;
   return !is.fail() && is.eof();
 }
@@ -72,7 +90,13 @@ int str2type<int> (const std::string& s) {
 }
 template<>
 double str2type<double> (const std::string& s) {
-  return std::stod(s);
+  double d;
+  if (special_double(s,d)) return d;
+
+  // Note: unlike an input stream, std::stod throws for subnormal numbers
+  std::istringstream is(s);
+  is >> d;
+  return d;
 }
 template<>
 std::string str2type<std::string> (const std::string& s) {
-- 
2.43.0


From b2af5054f64226860335065ff8d2a91a7a893b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:01 +0000
Subject: [PATCH 28/36] fix: yaml output of real numbers

Writing clipped the trailing zeros of the exponent, so that 1e20 was written
as 1e2; threw for numbers with 14 digits before the decimal point, such as
1e13; and lost digits beyond the 14th.
---
 src/parser/ekat_yaml.cpp | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/parser/ekat_yaml.cpp b/src/parser/ekat_yaml.cpp
index 027887d..acf54e5 100644
--- a/src/parser/ekat_yaml.cpp
+++ b/src/parser/ekat_yaml.cpp
@@ -9,6 +9,7 @@
 #include <iomanip>
 #include <limits>
 #include <cmath>
+#include <algorithm>
 
 namespace ekat {
 
@@ -280,21 +281,27 @@ std::string write_param (const T& t) {
 
 template<>
 std::string write_param<double> (const double& d) {
-  std::stringstream ss;
-  ss << std::showpoint << std::setprecision(14) << d;
-  if (d==static_cast<int>(d) and ss.str().find('.')==std::string::npos) {
-    ss << ".0";
+  if (std::isnan(d)) return ".nan";
+  if (std::isinf(d)) return d>0 ? ".inf" : "-.inf";
+
+  // Use as many digits as needed to read back the same number
+  std::string s;
+  for (int prec=14; prec<=17; ++prec) {
+    std::stringstream ss;
+    ss << std::showpoint << std::setprecision(prec) << d;
+    s = ss.str();
+    if (str2type<double>(s)==d) break;
   }
 
-  // Clip trailing 0's, but ensure that there is AT LEAST one decimal digit
-  auto s = ss.str();
-  auto start = s.find('.');
-  auto last_nnz = s.substr(start+2).find_last_not_of('0');
-  if (last_nnz==std::string::npos) {
-    // No nonzeros after the 1st decimal digit. Truncate
-    return s.substr(0,start+2);
+  // Clip trailing 0's (but not those of the exponent, if any), and ensure
+  // that there is AT LEAST one decimal digit
+  const auto mantissa_len = std::min(s.find('e'),s.size());
+  auto mantissa = s.substr(0,mantissa_len);
+  mantissa.erase(mantissa.find_last_not_of('0')+1);
+  if (mantissa.back()=='.') {
+    mantissa += '0';
   }
-  return s.substr(0,start+2+last_nnz+1);
+  return mantissa + s.substr(mantissa_len);
 }
 template<>
 std::string write_param<char> (const char& t) {
-- 
2.43.0


From f869b029861fa8c3adacc8b7813f3dbb75cdd8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:01 +0000
Subject: [PATCH 29/36] fix: yaml strings that look like numbers or logicals

They were written without quotes, hence read back with another type; and
quotes were ignored when reading sequences.
---
 src/parser/ekat_yaml.cpp | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/parser/ekat_yaml.cpp b/src/parser/ekat_yaml.cpp
index acf54e5..50e1e0d 100644
--- a/src/parser/ekat_yaml.cpp
+++ b/src/parser/ekat_yaml.cpp
@@ -104,6 +104,12 @@ std::string str2type<std::string> (const std::string& s) {
   return s;
 }
 
+// Whether a node is marked (e.g., with quotes) as a string, no matter what it looks like
+bool is_string_node (const YAML::Node& node) {
+  const auto& tag = node.Tag();
+  return tag=="!" or tag=="!!str" or tag=="tag:yaml.org,2002:str";
+}
+
 // Returns true if all entries of the node sequence can be
 // interpreted as values of type T
 template<typename T>
@@ -114,6 +120,9 @@ bool is_seq (const YAML::Node& node) {
     if (not is_type<T>(str)) {
       return false;
     }
+    if (not std::is_same<T,std::string>::value and is_string_node(node[i])) {
+      return false;
+    }
   }
   return true;
 }
@@ -161,7 +170,7 @@ void parse_node<YAML::NodeType::Scalar> (
       EKAT_REQUIRE_MSG (is_type<double>(str),
           "Error! Tag " + tag + " not compatible with the stored value '" + str + "'\n");
       list.set(key,str2type<double>(str));
-    } else if (tag=="!" or tag=="!!str" or tag=="tag:yaml.org,2002:str") {
+    } else if (is_string_node(node)) {
       list.set(key,str);
     } else {
       EKAT_ERROR_MSG ("Error! Unrecognized/unsupported node tag '" + tag + "' for scalar node '" + key + "'.\n"
@@ -308,6 +317,15 @@ std::string write_param<char> (const char& t) {
   return (t ? "true" : "false");
 }
 
+// Text that looks like a value of another type must be quoted
+bool needs_quotes (const std::string& s) {
+  return is_type<bool>(s) or is_type<int>(s) or is_type<double>(s);
+}
+template<typename T>
+bool needs_quotes (const T&) {
+  return false;
+}
+
 void write_parameter_list (const ParameterList& params, YAML::Emitter& out) {
   // Helper lambda, to try all possible value types, return whether we found the type
   auto try_values = [&](const std::string& pname) -> bool {
@@ -325,6 +343,8 @@ void write_parameter_list (const ParameterList& params, YAML::Emitter& out) {
       out << YAML::Key << pname << YAML::Value;
       if (v.find('\n') != std::string::npos)
         out << YAML::Literal; // Use Literal for multiline
+      else if (needs_quotes(v))
+        out << YAML::DoubleQuoted;
       out << v;
     } else {
       // No match
@@ -358,6 +378,8 @@ void write_parameter_list (const ParameterList& params, YAML::Emitter& out) {
     // Note: all but one of the vectors above will be empty, so write will do nothing for all but one
     auto write = [&](auto vec) {
       for (auto e : vec) {
+        if (needs_quotes(e))
+          out << YAML::DoubleQuoted;
         out << write_param(e);
       }
     };
-- 
2.43.0


From 6bdcc4368dcbe7b5aefcb17705e171194ef8f774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:01 +0000
Subject: [PATCH 30/36] fix: yaml output of multiline strings

Multiline strings were all written as literal blocks, which changes strings
that do not end with exactly one newline, or start with a blank.
---
 src/parser/ekat_yaml.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser/ekat_yaml.cpp b/src/parser/ekat_yaml.cpp
index 50e1e0d..ace7d99 100644
--- a/src/parser/ekat_yaml.cpp
+++ b/src/parser/ekat_yaml.cpp
@@ -341,8 +341,12 @@ void write_parameter_list (const ParameterList& params, YAML::Emitter& out) {
     } else if (params.isType<std::string>(pname)) {
       auto v = params.get<std::string>(pname);
       out << YAML::Key << pname << YAML::Value;
-      if (v.find('\n') != std::string::npos)
-        out << YAML::Literal; // Use Literal for multiline
+      // Use Literal for multiline, if it can hold the string: a Literal ends with
+      // exactly one newline, and cannot start with a blank
+      const auto last = v.find_last_not_of('\n');
+      if (last!=std::string::npos and last+2==v.size() and
+          v[v.find_first_not_of('\n')]!=' ' and v.find('\r')==std::string::npos)
+        out << YAML::Literal;
       else if (needs_quotes(v))
         out << YAML::DoubleQuoted;
       out << v;
-- 
2.43.0


From ad8a0cbb53052c94687b8e8e314a5e1f6d4dc467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:03 +0000
Subject: [PATCH 31/36] fix: yaml output of the largest real numbers

---
 src/parser/ekat_yaml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/ekat_yaml.cpp b/src/parser/ekat_yaml.cpp
index ace7d99..dedb3cd 100644
--- a/src/parser/ekat_yaml.cpp
+++ b/src/parser/ekat_yaml.cpp
@@ -299,7 +299,7 @@ std::string write_param<double> (const double& d) {
     std::stringstream ss;
     ss << std::showpoint << std::setprecision(prec) << d;
     s = ss.str();
-    if (str2type<double>(s)==d) break;
+    if (is_type<double>(s) and str2type<double>(s)==d) break;
   }
 
   // Clip trailing 0's (but not those of the exponent, if any), and ensure
-- 
2.43.0


From 08eb140777fe0da3b242c669e90698aa908406a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:11 +0000
Subject: [PATCH 32/36] fix: a logger that shares its sinks knows the name of
 the log file

---
 src/logging/ekat_logger.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/logging/ekat_logger.hpp b/src/logging/ekat_logger.hpp
index 3e37bce..1e36888 100644
--- a/src/logging/ekat_logger.hpp
+++ b/src/logging/ekat_logger.hpp
@@ -182,6 +182,7 @@ public:
   {
     csink = src.get_console_sink();
     fsink = src.get_file_sink();
+    logfile_name = src.get_logfile_name();
     this->sinks().push_back(csink);
     this->sinks().push_back(fsink);
 
-- 
2.43.0


From f263381651fc5bd0f4c5b53a59982fa54511ecd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 33/36] fix: device min, max and max_element pick the entry the
 standard functions pick

---
 src/kokkos/ekat_math_utils.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kokkos/ekat_math_utils.hpp b/src/kokkos/ekat_math_utils.hpp
index 28f8acc..7b22723 100644
--- a/src/kokkos/ekat_math_utils.hpp
+++ b/src/kokkos/ekat_math_utils.hpp
@@ -19,20 +19,20 @@ namespace impl {
 template <typename T>
 KOKKOS_FORCEINLINE_FUNCTION
 const T& min (const T& a, const T& b) {
-  return a < b ? a : b;
+  return b < a ? b : a;
 }
 
 template <typename T>
 KOKKOS_FORCEINLINE_FUNCTION
 const T& max (const T& a, const T& b) {
-  return a > b ? a : b;
+  return a < b ? b : a;
 }
 
 template <typename T> KOKKOS_INLINE_FUNCTION
 const T* max_element (const T* const begin, const T* const end) {
   const T* me = begin;
   for (const T* it = begin + 1; it < end; ++it)
-    if ( ! (*it < *me)) // use operator<
+    if (*me < *it) // use operator<
       me = it;
   return me;
 }
-- 
2.43.0


From e5b467e401f633b28b23ba918dc0aa5ae2a091b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:46 +0000
Subject: [PATCH 34/36] fix: reject ranges beyond the end of a rank 1 view in
 subview, as for the other ranks

---
 src/kokkos/ekat_subview_utils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kokkos/ekat_subview_utils.hpp b/src/kokkos/ekat_subview_utils.hpp
index ea13e34..dfcfd45 100644
--- a/src/kokkos/ekat_subview_utils.hpp
+++ b/src/kokkos/ekat_subview_utils.hpp
@@ -324,7 +324,8 @@ subview(const ViewLR<ST*, Props...>& v,
         const int idim = 0) {
   assert(v.data() != nullptr);
   assert(idim == 0);
-  assert(kp0.first >= 0 && kp0.first < kp0.second);
+  assert(kp0.first >= 0 && kp0.first < kp0.second
+         && kp0.second <= v.extent_int(idim));
   return Unmanaged<ViewLS<ST*,Props...>>(Kokkos::subview(v, kp0));
 }
 
-- 
2.43.0


From 21ddffec797b54fe9f105a8da4378d56c7e04e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:09 +0000
Subject: [PATCH 35/36] fix: ViewBroadcast::extent accepted an index equal to
 the rank, and its header lacked the assertion macro

---
 src/kokkos/ekat_view_broadcast.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kokkos/ekat_view_broadcast.hpp b/src/kokkos/ekat_view_broadcast.hpp
index bba4e17..22dd793 100644
--- a/src/kokkos/ekat_view_broadcast.hpp
+++ b/src/kokkos/ekat_view_broadcast.hpp
@@ -2,6 +2,7 @@
 #define EKAT_BROADCAST_VIEW_HPP
 
 #include "ekat_kokkos_meta.hpp"
+#include "ekat_kernel_assert.hpp"
 #include "ekat_assert.hpp"
 
 namespace ekat {
@@ -83,7 +84,7 @@ public:
 
   KOKKOS_INLINE_FUNCTION
   int extent(int i) {
-    EKAT_KERNEL_ASSERT_MSG (i>=0 and i<=m_view_impl.rank(),
+    EKAT_KERNEL_ASSERT_MSG (i>=0 and i<static_cast<int>(m_view_impl.rank()),
         "[ViewBroadcast::extent] Error! Index out of bounds.\n");
     return m_shape[i];
   }
-- 
2.43.0


From 076277851eea3467b51be3840d687657994dd411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:56 +0000
Subject: [PATCH 36/36] fix: ViewBroadcast exposed the wrong entries of strided
 views and of views of another layout

---
 src/kokkos/ekat_view_broadcast.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/kokkos/ekat_view_broadcast.hpp b/src/kokkos/ekat_view_broadcast.hpp
index 22dd793..c6216a1 100644
--- a/src/kokkos/ekat_view_broadcast.hpp
+++ b/src/kokkos/ekat_view_broadcast.hpp
@@ -80,6 +80,14 @@ public:
         "Error! Too many positive extents in input vector.\n");
 
     m_view_impl = view_type(from_v.data(),impl_layout);
+
+    // We only store the address of the entries, so they must be where the layout of ToView expects them
+    for (int i=0, j=0; i<to_rank; ++i) {
+      if (m_coeff[i]==0) continue;
+      EKAT_REQUIRE_MSG (m_shape[i]<=1 or m_view_impl.stride(i)==from_v.stride(j),
+          "[ViewBroadcast] Error! The input view is strided, padded, or its layout is not that of ToView.\n");
+      ++j;
+    }
   }
 
   KOKKOS_INLINE_FUNCTION
-- 
2.43.0

