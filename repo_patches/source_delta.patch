From 8806c0b1ba398072d4f22d1b3de5c3539fd5eaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:27 +0000
Subject: [PATCH 001/106] fix: data race on the shared regex match buffer used
 by dump and print_content_types

---
 src/GenericContainer.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 039ae28..836ec05 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -252,8 +252,7 @@ namespace GC_namespace {
 
   class Pcre_for_GC {
 
-    std::regex  reCompiled;
-    std::smatch reMatches;
+    std::regex reCompiled;
 
   public:
 
@@ -264,7 +263,8 @@ namespace GC_namespace {
     ~Pcre_for_GC() = default;
 
     int
-    exec( string_view const str_in, string_type matches[4] ) {
+    exec( string_view const str_in, string_type matches[4] ) const {
+      std::smatch reMatches; // local: the regex object is shared among threads
       if ( string const str(str_in); std::regex_match( str, reMatches, reCompiled ) ) {
         for ( size_t i{0}; i < reMatches.size(); ++i ) matches[i] = reMatches[i].str();
         return static_cast<int>(reMatches.size());
-- 
2.43.0


From 2f1bbff4f6591e710d61c163bec85c82a224dc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:27 +0000
Subject: [PATCH 002/106] fix: matrix size computed in 32 bits overflows for
 large shapes

---
 include/GenericContainer/GenericContainer.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/GenericContainer/GenericContainer.hh b/include/GenericContainer/GenericContainer.hh
index 4faee7d..45c2657 100755
--- a/include/GenericContainer/GenericContainer.hh
+++ b/include/GenericContainer/GenericContainer.hh
@@ -189,7 +189,7 @@ namespace GC_namespace {
     mat_type( unsigned nr, unsigned nc )
     : m_num_rows(nr)
     , m_num_cols(nc)
-    { vector<TYPE>::resize(size_type(nr*nc)); }
+    { vector<TYPE>::resize(size_type(nr)*size_type(nc)); }
 
     //!
     //! Resizes the matrix to the specified dimensions.
@@ -205,9 +205,9 @@ namespace GC_namespace {
     //!
     void
     resize( unsigned nr, unsigned nc ) {
+      vector<TYPE>::resize(size_type(nr)*size_type(nc));
       m_num_rows = nr;
       m_num_cols = nc;
-      vector<TYPE>::resize(size_type(nr*nc));
     }
 
     //!
-- 
2.43.0


From 0dbe1bcad6709e8edb83c74314a18582641eef22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:27 +0000
Subject: [PATCH 003/106] fix: data() of an empty matrix dereferences front()
 of an empty vector

---
 include/GenericContainer/GenericContainer.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/GenericContainer/GenericContainer.hh b/include/GenericContainer/GenericContainer.hh
index 45c2657..1f93f2d 100755
--- a/include/GenericContainer/GenericContainer.hh
+++ b/include/GenericContainer/GenericContainer.hh
@@ -406,7 +406,7 @@ namespace GC_namespace {
     //! int *dataPtr = matrix.data();  // Pointer to matrix data
     //! \endcode
     //!
-    TYPE * data() { return &vector<TYPE>::front(); }
+    TYPE * data() { return vector<TYPE>::data(); }
 
     //!
     //! Returns a constant pointer to the underlying data block of the matrix.
@@ -419,7 +419,7 @@ namespace GC_namespace {
     //! const int *dataPtr = matrix.data();  // Constant pointer to matrix data
     //! \endcode
     //!
-    TYPE const * data() const { return &vector<TYPE>::front(); }
+    TYPE const * data() const { return vector<TYPE>::data(); }
   };
 
   // ---------------------------------------------------------------------------
-- 
2.43.0


From f44cc5241ddcea796dbaf69049a699bdc11da3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:27 +0000
Subject: [PATCH 004/106] fix: matrix element access with a row out of range
 returns another element

---
 src/GenericContainer.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 836ec05..a44c7ca 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -134,8 +134,13 @@ namespace GC_namespace {
   template <typename TYPE>
   TYPE const &
   mat_type<TYPE>::operator () ( unsigned i, unsigned j ) const {
+    GC_ASSERT(
+      i < m_num_rows && j < m_num_cols,
+      "mat_type::operator() (" << i << ", " << j << "): index out of range, matrix is "
+      << m_num_rows << " x " << m_num_cols
+    );
     try {
-      return this->at(i+j*m_num_rows);
+      return this->at(i+size_type(j)*m_num_rows);
     } catch ( std::exception const & exc ) {
       GC_DO_ERROR( "mat_type::operator() (" << i << ", " << j << "): " << exc.what() << '\n' );
     } catch ( ... ) {
@@ -146,8 +151,13 @@ namespace GC_namespace {
   template <typename TYPE>
   TYPE &
   mat_type<TYPE>::operator () ( unsigned i, unsigned j ) {
+    GC_ASSERT(
+      i < m_num_rows && j < m_num_cols,
+      "mat_type::operator() (" << i << ", " << j << "): index out of range, matrix is "
+      << m_num_rows << " x " << m_num_cols
+    );
     try {
-      return this->at(i+j*m_num_rows);
+      return this->at(i+size_type(j)*m_num_rows);
     } catch ( std::exception const & exc ) {
       GC_DO_ERROR( "mat_type::operator() (" << i << ", " << j << "): " << exc.what() << '\n' );
     } catch ( ... ) {
-- 
2.43.0


From b59d1e459636313180bf3eb773a835aa6e0125b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:44 +0000
Subject: [PATCH 005/106] fix: compare_content never terminates on equal
 non-empty vectors

---
 src/GenericContainer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index a44c7ca..5e01624 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -427,7 +427,7 @@ namespace GC_namespace {
                << *it1 << " <> " << *it2 << '\n';
           break;
         }
-        ++i;
+        ++i; ++it1; ++it2;
       }
     } else {
       data << who << " size: " << A->size() << " <> " << B->size() << '\n';
-- 
2.43.0


From 73119b3e8d6a78e5b653d441a0b698ace293f227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:44 +0000
Subject: [PATCH 006/106] fix: compare_content of reals falls through to the
 pointer comparison

---
 src/GenericContainer.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 5e01624..1d028a5 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -488,6 +488,7 @@ namespace GC_namespace {
       case GC_type::REAL:
         if ( m_data.r != gc.m_data.r )
           data << from << "real: " << m_data.r << " <> " << gc.m_data.r << '\n';
+        break;
       case GC_type::POINTER:
         if ( m_data.p != gc.m_data.p )
           data << from << "pointer: 0x" << std::hex << m_data.p << " <> 0x" <<  std::hex << gc.m_data.p << '\n';
-- 
2.43.0


From 563bd67c7a71654315a2851b964d9219fb66f93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:43 +0000
Subject: [PATCH 007/106] fix: a failed allocation leaves the container tagged
 as owner of an invalid pointer

---
 src/GenericContainer.cc | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 1d028a5..102bcc9 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -768,8 +768,8 @@ namespace GC_namespace {
   GenericContainer::allocate_string() {
     if ( m_data_type != GC_type::STRING ) {
       clear();
-      m_data_type = GC_type::STRING;
       m_data.s    = new string_type;
+      m_data_type = GC_type::STRING;
     }
   }
 
@@ -777,8 +777,8 @@ namespace GC_namespace {
   GenericContainer::allocate_complex() {
     if ( m_data_type != GC_type::COMPLEX ) {
       clear();
-      m_data_type = GC_type::COMPLEX;
       m_data.c    = new complex_type;
+      m_data_type = GC_type::COMPLEX;
     }
   }
 
@@ -786,8 +786,8 @@ namespace GC_namespace {
   GenericContainer::allocate_vec_pointer( unsigned const sz ) {
     if ( m_data_type != GC_type::VEC_POINTER ) {
       clear();
-      m_data_type = GC_type::VEC_POINTER;
       m_data.v_p  = new vec_pointer_type();
+      m_data_type = GC_type::VEC_POINTER;
     }
     if ( sz > 0 ) m_data.v_p->resize( sz );
   }
@@ -810,8 +810,8 @@ namespace GC_namespace {
   GenericContainer::allocate_vec_bool( unsigned const sz ) {
     if ( m_data_type != GC_type::VEC_BOOL ) {
       clear();
-      m_data_type = GC_type::VEC_BOOL;
       m_data.v_b  = new vec_bool_type();
+      m_data_type = GC_type::VEC_BOOL;
     }
     if ( sz > 0 ) m_data.v_b->resize( sz );
   }
@@ -820,8 +820,8 @@ namespace GC_namespace {
   GenericContainer::allocate_vec_int( unsigned const sz ) {
     if ( m_data_type != GC_type::VEC_INTEGER ) {
       clear();
-      m_data_type = GC_type::VEC_INTEGER;
       m_data.v_i  = new vec_int_type();
+      m_data_type = GC_type::VEC_INTEGER;
     }
     if ( sz > 0 ) m_data.v_i->resize( sz );
   }
@@ -830,8 +830,8 @@ namespace GC_namespace {
   GenericContainer::allocate_vec_long( unsigned const sz ) {
     if ( m_data_type != GC_type::VEC_LONG ) {
       clear();
-      m_data_type = GC_type::VEC_LONG;
       m_data.v_l  = new vec_long_type();
+      m_data_type = GC_type::VEC_LONG;
     }
     if ( sz > 0 ) m_data.v_l->resize( sz );
   }
@@ -840,8 +840,8 @@ namespace GC_namespace {
   GenericContainer::allocate_vec_real( unsigned const sz ) {
     if ( m_data_type != GC_type::VEC_REAL ) {
       clear();
-      m_data_type = GC_type::VEC_REAL;
       m_data.v_r  = new vec_real_type();
+      m_data_type = GC_type::VEC_REAL;
     }
     if ( sz > 0 ) m_data.v_r->resize( sz );
   }
@@ -850,8 +850,8 @@ namespace GC_namespace {
   GenericContainer::allocate_vec_complex( unsigned const sz ) {
     if ( m_data_type != GC_type::VEC_COMPLEX ) {
       clear();
-      m_data_type = GC_type::VEC_COMPLEX;
       m_data.v_c  = new vec_complex_type();
+      m_data_type = GC_type::VEC_COMPLEX;
     }
     if ( sz > 0 ) m_data.v_c->resize( sz );
   }
@@ -860,8 +860,8 @@ namespace GC_namespace {
   GenericContainer::allocate_mat_int( unsigned const nr, unsigned const nc ) {
     if ( m_data_type != GC_type::MAT_INTEGER ) {
       clear();
-      m_data_type = GC_type::MAT_INTEGER;
       m_data.m_i  = new mat_int_type( nr, nc );
+      m_data_type = GC_type::MAT_INTEGER;
     } else {
       m_data.m_i->resize( nr, nc );
     }
@@ -871,8 +871,8 @@ namespace GC_namespace {
   GenericContainer::allocate_mat_long( unsigned const nr, unsigned const nc ) {
     if ( m_data_type != GC_type::MAT_LONG ) {
       clear();
-      m_data_type = GC_type::MAT_LONG;
       m_data.m_l  = new mat_long_type( nr, nc );
+      m_data_type = GC_type::MAT_LONG;
     } else {
       m_data.m_l->resize( nr, nc );
     }
@@ -882,8 +882,8 @@ namespace GC_namespace {
   GenericContainer::allocate_mat_real( unsigned const nr, unsigned const nc ) {
     if ( m_data_type != GC_type::MAT_REAL ) {
       clear();
-      m_data_type = GC_type::MAT_REAL;
       m_data.m_r  = new mat_real_type( nr, nc );
+      m_data_type = GC_type::MAT_REAL;
     } else {
       m_data.m_r->resize( nr, nc );
     }
@@ -893,8 +893,8 @@ namespace GC_namespace {
   GenericContainer::allocate_mat_complex( unsigned const nr, unsigned const nc ) {
     if ( m_data_type != GC_type::MAT_COMPLEX ) {
       clear();
-      m_data_type = GC_type::MAT_COMPLEX;
       m_data.m_c  = new mat_complex_type( nr, nc );
+      m_data_type = GC_type::MAT_COMPLEX;
     } else {
       m_data.m_c->resize( nr, nc );
     }
@@ -904,8 +904,8 @@ namespace GC_namespace {
   GenericContainer::allocate_vec_string( unsigned const sz ) {
     if ( m_data_type != GC_type::VEC_STRING ) {
       clear();
-      m_data_type = GC_type::VEC_STRING;
       m_data.v_s  = new vec_string_type();
+      m_data_type = GC_type::VEC_STRING;
     }
     if ( sz > 0 ) m_data.v_s->resize( sz );
   }
@@ -914,8 +914,8 @@ namespace GC_namespace {
   GenericContainer::allocate_vector( unsigned const sz ) {
     if ( m_data_type != GC_type::VECTOR ) {
       clear();
-      m_data_type = GC_type::VECTOR;
       m_data.v    = new vector_type();
+      m_data_type = GC_type::VECTOR;
     }
     if ( sz > 0 ) m_data.v->resize( sz );
   }
@@ -924,8 +924,8 @@ namespace GC_namespace {
   GenericContainer::allocate_map() {
     if ( m_data_type != GC_type::MAP ) {
       clear();
-      m_data_type = GC_type::MAP;
       m_data.m    = new map_type();
+      m_data_type = GC_type::MAP;
     }
   }
 
@@ -975,16 +975,16 @@ namespace GC_namespace {
   complex_type &
   GenericContainer::set_complex( complex_type const & value ) {
     clear();
-    m_data_type = GC_type::COMPLEX;
     m_data.c    = new complex_type;
+    m_data_type = GC_type::COMPLEX;
     return (*m_data.c=value);
   }
 
   complex_type &
   GenericContainer::set_complex( real_type const re, real_type const im ) {
     clear();
-    m_data_type = GC_type::COMPLEX;
     m_data.c    = new complex_type(re,im);
+    m_data_type = GC_type::COMPLEX;
     return *m_data.c;
   }
 
@@ -2100,8 +2100,8 @@ namespace GC_namespace {
   GenericContainer::get_complex( string_view const where ) {
     if ( m_data_type == GC_type::NOTYPE ) {
       clear();
-      m_data_type = GC_type::COMPLEX;
       m_data.c    = new complex_type;
+      m_data_type = GC_type::COMPLEX;
     } else {
       ck(where,GC_type::COMPLEX);
     }
@@ -2118,8 +2118,8 @@ namespace GC_namespace {
   GenericContainer::get_string( string_view const where ) {
     if ( m_data_type == GC_type::NOTYPE ) {
       clear();
-      m_data_type = GC_type::STRING;
       m_data.s    = new string_type("");
+      m_data_type = GC_type::STRING;
     } else {
       ck(where,GC_type::STRING);
     }
-- 
2.43.0


From 035570860753d64872c3dd6a1cd0ba2ac5ec206c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:43 +0000
Subject: [PATCH 008/106] fix: non-const scalar getters on an empty container
 return an uninitialised value

---
 src/GenericContainer.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 102bcc9..ac3bf2e 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -753,8 +753,19 @@ namespace GC_namespace {
 
   void
   GenericContainer::ck_or_set( string_view const where, TypeAllowed const tp ) {
-    if ( m_data_type == GC_type::NOTYPE ) m_data_type = tp;
-    else                                  ck(where,tp);
+    if ( m_data_type == GC_type::NOTYPE ) {
+      // a container without a type holds no valid data, start from zero
+      switch (tp) {
+      case GC_type::BOOL:    m_data.b = false;   break;
+      case GC_type::INTEGER: m_data.i = 0;       break;
+      case GC_type::LONG:    m_data.l = 0;       break;
+      case GC_type::REAL:    m_data.r = 0;       break;
+      default:               m_data.p = nullptr; break;
+      }
+      m_data_type = tp;
+    } else {
+      ck(where,tp);
+    }
   }
 
   /*
-- 
2.43.0


From e94ca7af6f80acd0690fc4b156e5836b6d1478a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:43 +0000
Subject: [PATCH 009/106] fix: set_complex with a reference to the stored value
 reads freed memory

---
 src/GenericContainer.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index ac3bf2e..ddd9472 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -985,10 +985,11 @@ namespace GC_namespace {
 
   complex_type &
   GenericContainer::set_complex( complex_type const & value ) {
+    complex_type const tmp{value}; // value may be part of this container
     clear();
-    m_data.c    = new complex_type;
+    m_data.c    = new complex_type(tmp);
     m_data_type = GC_type::COMPLEX;
-    return (*m_data.c=value);
+    return *m_data.c;
   }
 
   complex_type &
-- 
2.43.0


From b6e0bb8ec53eaaf842ae8ba3c7b382226b05227c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:43 +0000
Subject: [PATCH 010/106] fix: storing an empty vector over a vector of the
 same type keeps the old elements

---
 src/GenericContainer.cc | 46 ++++++++++++++++++-----------------------
 1 file changed, 20 insertions(+), 26 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index ddd9472..afc2987 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -347,43 +347,37 @@ namespace GC_namespace {
 
   GenericContainer &
   GenericContainer::operator = ( vec_bool_type const & a ) {
-    set_vec_bool( static_cast<unsigned>(a.size()) );
-    std::copy( a.begin(), a.end(), m_data.v_b->begin() );
+    set_vec_bool( a );
     return *this;
   }
 
   GenericContainer &
   GenericContainer::operator = ( vec_int_type const & a ) {
-    set_vec_int( static_cast<unsigned>(a.size()) );
-    std::copy( a.begin(), a.end(), m_data.v_i->begin() );
+    set_vec_int( a );
     return *this;
   }
 
   GenericContainer &
   GenericContainer::operator = ( vec_long_type const & a ) {
-    set_vec_long( a.size() );
-    std::copy( a.begin(), a.end(), m_data.v_l->begin() );
+    set_vec_long( a );
     return *this;
   }
 
   GenericContainer &
   GenericContainer::operator = ( vec_real_type const & a ) {
-    set_vec_real( a.size() );
-    std::copy( a.begin(), a.end(), m_data.v_r->begin() );
+    set_vec_real( a );
     return *this;
   }
 
   GenericContainer &
   GenericContainer::operator = ( vec_complex_type const & a ) {
-    set_vec_complex( a.size() );
-    std::copy( a.begin(), a.end(), m_data.v_c->begin() );
+    set_vec_complex( a );
     return *this;
   }
 
   GenericContainer &
   GenericContainer::operator = ( vec_string_type const & a ) {
-    set_vec_string( a.size() );
-    std::copy( a.begin(), a.end(), m_data.v_s->begin() );
+    set_vec_string( a );
     return *this;
   }
 
@@ -1014,8 +1008,8 @@ namespace GC_namespace {
 
   vec_pointer_type &
   GenericContainer::set_vec_pointer( vec_pointer_type const & v ) {
-    allocate_vec_pointer( v.size() );
-    std::copy( v.begin(), v.end(), m_data.v_p->begin() );
+    allocate_vec_pointer( 0 );
+    *m_data.v_p = v;
     return *m_data.v_p;
   }
 
@@ -1026,8 +1020,8 @@ namespace GC_namespace {
 
   vec_bool_type &
   GenericContainer::set_vec_bool( vec_bool_type const & v ) {
-    allocate_vec_bool( v.size() );
-    std::copy( v.begin(), v.end(), m_data.v_b->begin() );
+    allocate_vec_bool( 0 );
+    *m_data.v_b = v;
     return *m_data.v_b;
   }
 
@@ -1039,8 +1033,8 @@ namespace GC_namespace {
 
   vec_int_type &
   GenericContainer::set_vec_int( vec_int_type const & v ) {
-    allocate_vec_int( v.size() );
-    std::copy( v.begin(), v.end(), m_data.v_i->begin() );
+    allocate_vec_int( 0 );
+    *m_data.v_i = v;
     return *m_data.v_i;
   }
 
@@ -1052,8 +1046,8 @@ namespace GC_namespace {
 
   vec_long_type &
   GenericContainer::set_vec_long( vec_long_type const & v ) {
-    allocate_vec_long( v.size() );
-    std::copy( v.begin(), v.end(), m_data.v_l->begin() );
+    allocate_vec_long( 0 );
+    *m_data.v_l = v;
     return *m_data.v_l;
   }
 
@@ -1065,8 +1059,8 @@ namespace GC_namespace {
 
   vec_real_type &
   GenericContainer::set_vec_real( vec_real_type const & v ) {
-    allocate_vec_real( v.size() );
-    std::copy( v.begin(), v.end(), m_data.v_r->begin() );
+    allocate_vec_real( 0 );
+    *m_data.v_r = v;
     return *m_data.v_r;
   }
 
@@ -1078,8 +1072,8 @@ namespace GC_namespace {
 
   vec_complex_type &
   GenericContainer::set_vec_complex( vec_complex_type const & v ) {
-    allocate_vec_complex( v.size() );
-    std::copy( v.begin(), v.end(), m_data.v_c->begin() );
+    allocate_vec_complex( 0 );
+    *m_data.v_c = v;
     return *m_data.v_c;
   }
 
@@ -1143,8 +1137,8 @@ namespace GC_namespace {
 
   vec_string_type &
   GenericContainer::set_vec_string( vec_string_type const & v ) {
-    allocate_vec_string( v.size() );
-    std::copy( v.begin(), v.end(), m_data.v_s->begin() );
+    allocate_vec_string( 0 );
+    *m_data.v_s = v;
     return *m_data.v_s;
   }
 
-- 
2.43.0


From c7ea281e7323df0658938bec585978f162d02779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:10 +0000
Subject: [PATCH 011/106] fix: get_value/get_as_* silently truncate numbers out
 of the range of the integer type

---
 src/GenericContainer.cc | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index afc2987..756212f 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -24,6 +24,7 @@
 #include "GenericContainer/GenericContainer.hh"
 #include <iomanip>
 #include <cmath>
+#include <limits>
 
 #ifdef __clang__
 #pragma clang diagnostic ignored "-Wc++98-compat"
@@ -59,6 +60,13 @@ static bool isInteger( real_type const x )
 static bool isUnsigned( real_type const x )
 { return isInteger(x) && x >= 0; }
 
+//! check if `x` is in the range of the integer type `T`
+template <typename T>
+static bool inRange( real_type const x ) {
+  real_type const top{ std::ldexp( static_cast<real_type>(1), std::numeric_limits<T>::digits ) };
+  return x < top && x >= ( std::numeric_limits<T>::is_signed ? -top : 0 );
+}
+
 #endif
 
 namespace GC_namespace {
@@ -1579,15 +1587,15 @@ namespace GC_namespace {
       break;
     case GC_type::LONG:
       GC_ASSERT(
-        m_data.l >= 0,
-        where << " in get_value(...) negative `long` value '" << m_data.l
+        m_data.l >= 0 && m_data.l <= static_cast<long_type>(std::numeric_limits<uint_type>::max()),
+        where << " in get_value(...) negative or too big `long` value '" << m_data.l
               << "' cannot be converted into `uint_type'"
       )
       v = static_cast<unsigned>(m_data.l);
       break;
     case GC_type::REAL:
       GC_ASSERT(
-        m_data.r >= 0 && isUnsigned(m_data.r),
+        m_data.r >= 0 && isUnsigned(m_data.r) && inRange<uint_type>(m_data.r),
         where << " in get_value(...) negative or fractional `real` value '" << m_data.r
               << "' cannot be converted into `uint_type'"
       )
@@ -1595,7 +1603,7 @@ namespace GC_namespace {
       break;
     case GC_type::COMPLEX:
       GC_ASSERT(
-        isZero0(m_data.c->imag()) && isUnsigned(m_data.c->real()),
+        isZero0(m_data.c->imag()) && isUnsigned(m_data.c->real()) && inRange<uint_type>(m_data.c->real()),
         where << " in get_value(...) `complex` value = "
               << to_string(*m_data.c) << " cannot be converted into `uint_type'"
       )
@@ -1635,11 +1643,17 @@ namespace GC_namespace {
       v = m_data.i;
       break;
     case GC_type::LONG:
+      GC_ASSERT(
+        m_data.l >= static_cast<long_type>(std::numeric_limits<int_type>::min()) &&
+        m_data.l <= static_cast<long_type>(std::numeric_limits<int_type>::max()),
+        where << " in get_value(...) too big `long` value '" << m_data.l
+              << "' cannot be converted into `int_type'"
+      )
       v = static_cast<int>(m_data.l);
       break;
     case GC_type::REAL:
       GC_ASSERT(
-        isInteger(m_data.r),
+        isInteger(m_data.r) && inRange<int_type>(m_data.r),
         where << " in get_value(...) fractional `real` value '" << m_data.r
               << "' cannot be converted into `int_type'"
       )
@@ -1647,7 +1661,7 @@ namespace GC_namespace {
       break;
     case GC_type::COMPLEX:
       GC_ASSERT(
-        isZero0(m_data.c->imag()) && isInteger(m_data.c->real()),
+        isZero0(m_data.c->imag()) && isInteger(m_data.c->real()) && inRange<int_type>(m_data.c->real()),
         where << " in get_value(...) `complex` value = "
               << to_string(*m_data.c) << " cannot be converted into `int_type'"
       )
@@ -1701,7 +1715,7 @@ namespace GC_namespace {
       break;
     case GC_type::REAL:
       GC_ASSERT(
-        m_data.r >= 0 && isUnsigned(m_data.r),
+        m_data.r >= 0 && isUnsigned(m_data.r) && inRange<ulong_type>(m_data.r),
         where << " in get_value(...) negative or fractional `real` value '" << m_data.r
               << "' cannot be converted into `ulong_type'"
       )
@@ -1709,7 +1723,7 @@ namespace GC_namespace {
       break;
     case GC_type::COMPLEX:
       GC_ASSERT(
-        isZero0(m_data.c->imag()) && isUnsigned(m_data.c->real()),
+        isZero0(m_data.c->imag()) && isUnsigned(m_data.c->real()) && inRange<ulong_type>(m_data.c->real()),
         where << " in get_value(...) `complex` value "
               << to_string(*m_data.c) << " cannot be converted into `ulong_type'"
       )
@@ -1754,7 +1768,7 @@ namespace GC_namespace {
       break;
     case GC_type::REAL:
       GC_ASSERT(
-        isInteger(m_data.r),
+        isInteger(m_data.r) && inRange<long_type>(m_data.r),
         where << " in get_value(...) fractional `real` value '" << m_data.r
               << "' cannot be converted into `long_type'"
       )
@@ -1762,7 +1776,7 @@ namespace GC_namespace {
       break;
     case GC_type::COMPLEX:
       GC_ASSERT(
-        isZero0(m_data.c->imag()) && isInteger(m_data.c->real()),
+        isZero0(m_data.c->imag()) && isInteger(m_data.c->real()) && inRange<long_type>(m_data.c->real()),
         where << " in get_value(...) `complex` value = "
               << to_string(*m_data.c) << " cannot be converted into `long_type'"
       )
-- 
2.43.0


From fbb5a3dcf3e0d548086e4de42b8ce907c5be25f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:10 +0000
Subject: [PATCH 012/106] fix: get_number_at and get_complex_number_at read out
 of bounds

---
 src/GenericContainer.cc | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 756212f..27883db 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -1972,14 +1972,14 @@ namespace GC_namespace {
   real_type
   GenericContainer::get_number_at( unsigned const i, string_view const where ) const {
     switch (m_data_type) {
-    case GC_type::VEC_BOOL:    return (*m_data.v_b)[i] ? 1 : 0;
-    case GC_type::VEC_INTEGER: return (*m_data.v_i)[i];
-    case GC_type::VEC_LONG:    return (*m_data.v_l)[i];
-    case GC_type::VEC_REAL:    return (*m_data.v_r)[i];
-    case GC_type::MAT_INTEGER: return (*m_data.m_i)[i];
-    case GC_type::MAT_LONG:    return (*m_data.m_l)[i];
-    case GC_type::MAT_REAL:    return (*m_data.m_r)[i];
-    case GC_type::VECTOR:      return (*m_data.v)[i].get_number();
+    case GC_type::VEC_BOOL:    return m_data.v_b->at(i) ? 1 : 0;
+    case GC_type::VEC_INTEGER: return m_data.v_i->at(i);
+    case GC_type::VEC_LONG:    return m_data.v_l->at(i);
+    case GC_type::VEC_REAL:    return m_data.v_r->at(i);
+    case GC_type::MAT_INTEGER: return m_data.m_i->at(i);
+    case GC_type::MAT_LONG:    return m_data.m_l->at(i);
+    case GC_type::MAT_REAL:    return m_data.m_r->at(i);
+    case GC_type::VECTOR:      return m_data.v->at(i).get_number();
     case GC_type::NOTYPE:
     case GC_type::POINTER:
     case GC_type::BOOL:
@@ -2004,16 +2004,16 @@ namespace GC_namespace {
   complex_type
   GenericContainer::get_complex_number_at( unsigned const i, string_view const where ) const {
     switch (m_data_type) {
-    case GC_type::VEC_BOOL:    return {static_cast<real_type>( (*m_data.v_b)[i]?1:0 ),0};
-    case GC_type::VEC_INTEGER: return {static_cast<real_type>( (*m_data.v_i)[i] ),0};
-    case GC_type::VEC_LONG:    return {static_cast<real_type>( (*m_data.v_l)[i] ),0};
-    case GC_type::VEC_REAL:    return {(*m_data.v_r)[i],0};
-    case GC_type::VEC_COMPLEX: return (*m_data.v_c)[i];
-    case GC_type::MAT_INTEGER: return {static_cast<real_type>( (*m_data.m_i)[i] ),0};
-    case GC_type::MAT_LONG:    return {static_cast<real_type>( (*m_data.m_l)[i] ),0};
-    case GC_type::MAT_REAL:    return {(*m_data.m_r)[i],0};
-    case GC_type::MAT_COMPLEX: return (*m_data.m_c)[i];
-    case GC_type::VECTOR:      return (*m_data.v)[i].get_complex_number();
+    case GC_type::VEC_BOOL:    return {static_cast<real_type>( m_data.v_b->at(i)?1:0 ),0};
+    case GC_type::VEC_INTEGER: return {static_cast<real_type>( m_data.v_i->at(i) ),0};
+    case GC_type::VEC_LONG:    return {static_cast<real_type>( m_data.v_l->at(i) ),0};
+    case GC_type::VEC_REAL:    return {m_data.v_r->at(i),0};
+    case GC_type::VEC_COMPLEX: return m_data.v_c->at(i);
+    case GC_type::MAT_INTEGER: return {static_cast<real_type>( m_data.m_i->at(i) ),0};
+    case GC_type::MAT_LONG:    return {static_cast<real_type>( m_data.m_l->at(i) ),0};
+    case GC_type::MAT_REAL:    return {m_data.m_r->at(i),0};
+    case GC_type::MAT_COMPLEX: return m_data.m_c->at(i);
+    case GC_type::VECTOR:      return m_data.v->at(i).get_complex_number();
     case GC_type::NOTYPE:
     case GC_type::POINTER:
     case GC_type::BOOL:
-- 
2.43.0


From 6e13a793ae2eb8357aed08de2b84bbd04a7c80ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:36 +0000
Subject: [PATCH 013/106] fix: get_if_exists silently truncates numbers out of
 the range of the integer type

---
 src/GenericContainer.cc | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 27883db..46edebf 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -2650,14 +2650,17 @@ namespace GC_namespace {
       value = iv->second.m_data.i;
       break;
     case GC_type::LONG:
+      if ( iv->second.m_data.l < static_cast<long_type>(std::numeric_limits<int_type>::min()) ||
+           iv->second.m_data.l > static_cast<long_type>(std::numeric_limits<int_type>::max()) ) return false;
       value = static_cast<int_type>(iv->second.m_data.l);
       break;
     case GC_type::REAL:
-      if ( !isInteger(iv->second.m_data.r) ) return false;
+      if ( !(isInteger(iv->second.m_data.r) && inRange<int_type>(iv->second.m_data.r)) ) return false;
       value = static_cast<int_type>(iv->second.m_data.r);
       break;
     case GC_type::COMPLEX:
       if ( ! ( isInteger(iv->second.m_data.c->real()) &&
+               inRange<int_type>(iv->second.m_data.c->real()) &&
                isZero0(iv->second.m_data.c->imag()) ) ) return false;
       value = static_cast<int_type>(iv->second.m_data.c->real());
       break;
@@ -2701,15 +2704,17 @@ namespace GC_namespace {
       value = static_cast<uint_type>(iv->second.m_data.i);
       break;
     case GC_type::LONG:
-      if ( iv->second.m_data.l < 0 ) return false;
+      if ( iv->second.m_data.l < 0 ||
+           iv->second.m_data.l > static_cast<long_type>(std::numeric_limits<uint_type>::max()) ) return false;
       value = static_cast<uint_type>(iv->second.m_data.l);
       break;
     case GC_type::REAL:
-      if ( ! isUnsigned(iv->second.m_data.r) ) return false;
+      if ( !(isUnsigned(iv->second.m_data.r) && inRange<uint_type>(iv->second.m_data.r)) ) return false;
       value = static_cast<uint_type>(iv->second.m_data.r);
       break;
     case GC_type::COMPLEX:
       if ( ! ( isUnsigned(iv->second.m_data.c->real()) &&
+               inRange<uint_type>(iv->second.m_data.c->real()) &&
                isZero0(iv->second.m_data.c->imag()) ) ) return false;
       value = static_cast<uint_type>(iv->second.m_data.c->real());
       break;
@@ -2755,11 +2760,12 @@ namespace GC_namespace {
       value = iv->second.m_data.l;
       break;
     case GC_type::REAL:
-      if ( ! isInteger(iv->second.m_data.r) ) return false;
+      if ( !(isInteger(iv->second.m_data.r) && inRange<long_type>(iv->second.m_data.r)) ) return false;
       value = static_cast<long_type>(iv->second.m_data.r);
       break;
     case GC_type::COMPLEX:
       if ( ! ( isInteger(iv->second.m_data.c->real()) &&
+               inRange<long_type>(iv->second.m_data.c->real()) &&
                isZero0(iv->second.m_data.c->imag()) ) ) return false;
       value = static_cast<long_type>(iv->second.m_data.c->real());
       break;
@@ -2807,11 +2813,12 @@ namespace GC_namespace {
       value = static_cast<ulong_type>(iv->second.m_data.l);
       break;
     case GC_type::REAL:
-      if ( ! isUnsigned(iv->second.m_data.r) ) return false;
+      if ( !(isUnsigned(iv->second.m_data.r) && inRange<ulong_type>(iv->second.m_data.r)) ) return false;
       value = static_cast<ulong_type>(iv->second.m_data.r);
       break;
     case GC_type::COMPLEX:
       if ( ! ( isUnsigned(iv->second.m_data.c->real()) &&
+               inRange<ulong_type>(iv->second.m_data.c->real()) &&
                isZero0(iv->second.m_data.c->imag()) ) ) return false;
       value = static_cast<ulong_type>(iv->second.m_data.c->real());
       break;
-- 
2.43.0


From ba2a158900b7c31f6c3e6a036e5170b837c63bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:36 +0000
Subject: [PATCH 014/106] fix: get_if_exists with a list of fields reads a
 boolean from non boolean data

---
 src/GenericContainer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 46edebf..185ebfe 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -2624,7 +2624,7 @@ namespace GC_namespace {
     if ( m_data_type != GC_type::MAP ) return false;
     map_type & m = *m_data.m;
     for ( string_type const & field : fields ) {
-      if ( auto iv{ m.find(field) }; iv != m.end() && iv->second.m_data_type != GC_type::BOOL ) {
+      if ( auto iv{ m.find(field) }; iv != m.end() && iv->second.m_data_type == GC_type::BOOL ) {
         value = iv->second.m_data.b;
         return true;
       }
-- 
2.43.0


From 4bc16ed2b3645efb3903f9fa2ceaa2904f4142b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:25 +0000
Subject: [PATCH 015/106] fix: map keys given as string_view are read past
 their end or cut at a NUL

---
 src/GenericContainer.cc | 42 ++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 185ebfe..71e805b 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -2388,7 +2388,7 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(key.data()).get_as_int( where );
+    return this->m_data.m->at(string(key)).get_as_int( where );
   }
 
   int_type
@@ -2420,7 +2420,7 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(key.data()).get_number( where );
+    return this->m_data.m->at(string(key)).get_number( where );
   }
 
   real_type
@@ -2452,7 +2452,7 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(key.data()).get_string( where );
+    return this->m_data.m->at(string(key)).get_string( where );
   }
 
   string_view
@@ -2484,7 +2484,7 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(key.data()).get_vec_real( where );
+    return this->m_data.m->at(string(key)).get_vec_real( where );
   }
 
   vec_real_type const &
@@ -2516,7 +2516,7 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(key.data()).get_vec_complex( where );
+    return this->m_data.m->at(string(key)).get_vec_complex( where );
   }
 
   vec_complex_type const &
@@ -2548,7 +2548,7 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(key.data()).get_vec_string( where );
+    return this->m_data.m->at(string(key)).get_vec_string( where );
   }
 
   vec_string_type const &
@@ -2579,7 +2579,7 @@ namespace GC_namespace {
   bool
   GenericContainer::exists( string_view const s ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(s.data()) };
+    auto const iv{ m_data.m->find(string(s)) };
     return iv != m_data.m->end();
   }
 
@@ -2587,7 +2587,7 @@ namespace GC_namespace {
   GenericContainer::exists( vec_string_type const & vs ) const {
     if (m_data_type != GC_type::MAP) return false;
     return std::any_of(vs.begin(), vs.end(),
-      [this](string_type const & s) { return m_data.m->find(s.data()) != m_data.m->end(); }
+      [this](string_type const & s) { return m_data.m->find(s) != m_data.m->end(); }
     );
   }
   string
@@ -2609,7 +2609,7 @@ namespace GC_namespace {
   bool
   GenericContainer::get_if_exists( string_view const field, bool & value ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string(field)) };
     if ( iv == m_data.m->end() ) return false;
     if ( iv->second.m_data_type != GC_type::BOOL ) return false;
     value = iv->second.m_data.b;
@@ -2640,7 +2640,7 @@ namespace GC_namespace {
     int_type &        value
   ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string(field)) };
     if ( iv == m_data.m->end() ) return false;
     switch (iv->second.m_data_type) {
     case GC_type::BOOL:
@@ -2693,7 +2693,7 @@ namespace GC_namespace {
     uint_type &       value
   ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string(field)) };
     if ( iv == m_data.m->end() ) return false;
     switch (iv->second.m_data_type) {
     case GC_type::BOOL:
@@ -2747,7 +2747,7 @@ namespace GC_namespace {
     long_type &       value
   ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string(field)) };
     if ( iv == m_data.m->end() ) return false;
     switch (iv->second.m_data_type) {
     case GC_type::BOOL:
@@ -2798,7 +2798,7 @@ namespace GC_namespace {
     ulong_type &      value
   ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string(field)) };
     if ( iv == m_data.m->end() ) return false;
     switch (iv->second.m_data_type) {
     case GC_type::BOOL:
@@ -2851,7 +2851,7 @@ namespace GC_namespace {
     real_type &       value
   ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string(field)) };
     if ( iv == m_data.m->end() ) return false;
     switch (iv->second.m_data_type) {
     case GC_type::BOOL:
@@ -2899,7 +2899,7 @@ namespace GC_namespace {
     complex_type &    value
   ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string(field)) };
     if ( iv == m_data.m->end() ) return false;
     switch (iv->second.m_data_type) {
     case GC_type::BOOL:
@@ -2946,7 +2946,7 @@ namespace GC_namespace {
     string_type &     value
   ) const {
     if ( m_data_type != GC_type::MAP ) return false;
-    auto const iv{ m_data.m->find(field.data()) };
+    auto const iv{ m_data.m->find(string(field)) };
     if ( iv == m_data.m->end() ) return false;
     if ( iv->second.m_data_type != GC_type::STRING ) return false;
     value = *iv->second.m_data.s;
@@ -3361,7 +3361,7 @@ namespace GC_namespace {
       "\nexpect: " << to_string(GC_type::MAP) <<
       "\nbut data stored is of type: " << to_string(m_data_type)
     )
-    auto iv{ m_data.m->find(s.data()) };
+    auto iv{ m_data.m->find(string(s)) };
     if ( iv == m_data.m->end() ) {
       GC_DO_ERROR(
         where << " operator(): Cannot find key '" << s <<
@@ -3379,7 +3379,7 @@ namespace GC_namespace {
       "\nexpect: " << to_string(GC_type::MAP) <<
       "\nbut data stored is of type: " << to_string(m_data_type)
     )
-    auto iv{ m_data.m->find(s.data()) };
+    auto iv{ m_data.m->find(string(s)) };
     if ( iv == m_data.m->end() ) {
       GC_DO_ERROR(
         where << "\noperator() const: Cannot find key '" << s <<
@@ -3435,7 +3435,7 @@ namespace GC_namespace {
   GenericContainer &
   GenericContainer::operator [] ( string_view const s ) {
     if ( ck( GC_type::MAP ) != 0 ) set_map(); // if not data present allocate!
-    return (*m_data.m)[s.data()];
+    return (*m_data.m)[string(s)];
   }
 
   GenericContainer const &
@@ -3446,7 +3446,7 @@ namespace GC_namespace {
       "\nexpect: " << to_string(GC_type::MAP) <<
       "\nbut data stored is of type: " << to_string(m_data_type)
     )
-    return (*m_data.m)[s.data()];
+    return (*m_data.m)[string(s)];
   }
 
   /*
@@ -3915,7 +3915,7 @@ namespace GC_namespace {
 
   void
   GenericContainer::exception( string_view const where ) {
-    throw std::runtime_error(where.data());
+    throw std::runtime_error(string(where));
   }
 
   // instantate classes
-- 
2.43.0


From 0648075b4b2f49afe702dcbcd51dcc8649448952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:20 +0000
Subject: [PATCH 016/106] fix: get_*_at(i) on a generic vector overwrites the
 element it is asked to read

---
 src/GenericContainer.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 71e805b..ccfa469 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -2963,7 +2963,7 @@ namespace GC_namespace {
     }
     if ( m_data_type != GC_type::VECTOR ) promote_to_vector();
     CHECK_RESIZE(m_data.v,i);
-    return (*m_data.v)[i].set_bool(false);
+    return (*m_data.v)[i].get_bool("get_bool_at");
   }
 
   bool_type
@@ -2988,7 +2988,7 @@ namespace GC_namespace {
     }
     if ( m_data_type != GC_type::VECTOR ) promote_to_vector();
     CHECK_RESIZE(m_data.v,i);
-    return (*m_data.v)[i].set_int(0);
+    return (*m_data.v)[i].get_int("get_int_at");
   }
 
   int_type const &
@@ -3039,7 +3039,7 @@ namespace GC_namespace {
     }
     if ( m_data_type != GC_type::VECTOR ) promote_to_vector();
     CHECK_RESIZE(m_data.v,i);
-    return (*m_data.v)[i].set_long(0);
+    return (*m_data.v)[i].get_long("get_long_at");
   }
 
   long_type const &
@@ -3089,7 +3089,7 @@ namespace GC_namespace {
     }
     if ( m_data_type != GC_type::VECTOR ) promote_to_vector();
     CHECK_RESIZE(m_data.v,i);
-    return (*m_data.v)[i].set_real(0);
+    return (*m_data.v)[i].get_real("get_real_at");
   }
 
   real_type const &
@@ -3141,7 +3141,7 @@ namespace GC_namespace {
     }
     if ( m_data_type != GC_type::VECTOR ) promote_to_vector();
     CHECK_RESIZE(m_data.v,i);
-    return (*m_data.v)[i].set_complex(0,0);
+    return (*m_data.v)[i].get_complex("get_complex_at");
   }
 
   complex_type const &
@@ -3186,7 +3186,7 @@ namespace GC_namespace {
       return (*m_data.v_s)[i];
     }
     promote_to_vector();
-    return (*this)[i].set_string("");
+    return (*this)[i].get_string("get_string_at");
   }
 
   string_view
-- 
2.43.0


From 253076c9746e24b8975e44792c047540cd76054a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:20 +0000
Subject: [PATCH 017/106] fix: get_*_at(i,j) creates matrices of the wrong type
 or size and checks the wrong bounds

---
 src/GenericContainer.cc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index ccfa469..7be2f6a 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -41,7 +41,7 @@
 #include <fstream>
 
 #ifndef DOXYGEN_SHOULD_SKIP_THIS
-#define CHECK_RESIZE(pV,I) if ( pV->size() <= (I) ) pV->resize((I)+1)
+#define CHECK_RESIZE(pV,I) if ( pV->size() <= (I) ) pV->resize(static_cast<std::size_t>(I)+1)
 
 using std::fpclassify;
 using GC_namespace::real_type;
@@ -3003,7 +3003,7 @@ namespace GC_namespace {
 
   int_type &
   GenericContainer::get_int_at( unsigned const i, unsigned const j ) {
-    if      ( m_data_type == GC_type::NOTYPE ) set_mat_real(i,j);
+    if      ( m_data_type == GC_type::NOTYPE ) set_mat_int(i+1,j+1);
     else if ( m_data_type == GC_type::VEC_BOOL    ||
               m_data_type == GC_type::VEC_INTEGER ) promote_to_mat_int();
     GC_ASSERT(
@@ -3054,7 +3054,7 @@ namespace GC_namespace {
 
   long_type &
   GenericContainer::get_long_at( unsigned const i, unsigned const j ) {
-    if      ( m_data_type == GC_type::NOTYPE ) set_mat_real(i,j);
+    if      ( m_data_type == GC_type::NOTYPE ) set_mat_long(i+1,j+1);
     else if ( m_data_type == GC_type::VEC_BOOL    ||
               m_data_type == GC_type::VEC_INTEGER ||
               m_data_type == GC_type::VEC_LONG ) promote_to_mat_long();
@@ -3104,7 +3104,7 @@ namespace GC_namespace {
 
   real_type &
   GenericContainer::get_real_at( unsigned const i, unsigned const j ) {
-    if      ( m_data_type == GC_type::NOTYPE ) set_mat_real(i,j);
+    if      ( m_data_type == GC_type::NOTYPE ) set_mat_real(i+1,j+1);
     else if ( m_data_type == GC_type::VEC_BOOL    ||
               m_data_type == GC_type::VEC_INTEGER ||
               m_data_type == GC_type::VEC_LONG ||
@@ -3122,7 +3122,7 @@ namespace GC_namespace {
   GenericContainer::get_real_at( unsigned const i, unsigned const j, string_view const where ) const  {
     ck(where,GC_type::MAT_REAL);
     GC_ASSERT(
-      i < m_data.v_r->size(),
+      i < m_data.m_r->num_rows() && j < m_data.m_r->num_cols(),
       where << " get_real_at( " << i << ", " << j << " ) const, out of range"
     )
     return (*m_data.m_r)(i,j);
@@ -3156,7 +3156,7 @@ namespace GC_namespace {
 
   complex_type &
   GenericContainer::get_complex_at( unsigned const i, unsigned const j ) {
-    if      ( m_data_type == GC_type::NOTYPE ) set_mat_complex(i,j);
+    if      ( m_data_type == GC_type::NOTYPE ) set_mat_complex(i+1,j+1);
     else if ( m_data_type == GC_type::VEC_BOOL    ||
               m_data_type == GC_type::VEC_INTEGER ||
               m_data_type == GC_type::VEC_LONG    ||
@@ -3175,6 +3175,10 @@ namespace GC_namespace {
   complex_type const &
   GenericContainer::get_complex_at( unsigned const i, unsigned const j, string_view const where ) const  {
     ck(where,GC_type::MAT_COMPLEX);
+    GC_ASSERT(
+      i < m_data.m_c->num_rows() && j < m_data.m_c->num_cols(),
+      where << " get_complex_at( " << i << ", " << j << " ) const, out of range"
+    )
     return (*m_data.m_c)(i,j);
   }
 
-- 
2.43.0


From a4f4260bc161094bda70a9ed77298e080f906d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:35 +0000
Subject: [PATCH 018/106] fix: const operator[] with a missing key inserts it
 into the const map

---
 src/GenericContainer.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 7be2f6a..2f7c022 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -3450,7 +3450,12 @@ namespace GC_namespace {
       "\nexpect: " << to_string(GC_type::MAP) <<
       "\nbut data stored is of type: " << to_string(m_data_type)
     )
-    return (*m_data.m)[string(s)];
+    auto const iv{ m_data.m->find(string(s)) };
+    GC_ASSERT(
+      iv != m_data.m->end(),
+      "operator [] const: Cannot find key '" << s << "'!\npossibile keys: " << get_keys()
+    )
+    return iv->second;
   }
 
   /*
-- 
2.43.0


From cacb3ddaea90aad65221ec4ba5f43a0c052796bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:53 +0000
Subject: [PATCH 019/106] fix: assigning a container merges into or reads freed
 parts of the old contents

Assignment (operator=, load, from_gc, to_gc) over a vector or map kept the
old keys and elements, and used freed memory when the source was a part of
the target (or recursed forever when the target was a part of the source).
merge still merges nested maps.
---
 src/GenericContainer.cc | 79 ++++++++++-------------------------------
 1 file changed, 19 insertions(+), 60 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 2f7c022..6cc7ec6 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -3764,49 +3764,7 @@ namespace GC_namespace {
 
   void
   GenericContainer::to_gc( GenericContainer & gc ) const {
-    switch (m_data_type) {
-    case GC_type::NOTYPE:      gc.clear();                break;
-    case GC_type::BOOL:        gc = m_data.b;    break;
-    case GC_type::INTEGER:     gc = m_data.i;    break;
-    case GC_type::LONG:        gc = m_data.l;    break;
-    case GC_type::REAL:        gc = m_data.r;    break;
-    case GC_type::COMPLEX:     gc = *m_data.c;   break;
-    case GC_type::STRING:      gc = *m_data.s;   break;
-    case GC_type::VEC_BOOL:    gc = *m_data.v_b; break;
-    case GC_type::VEC_INTEGER: gc = *m_data.v_i; break;
-    case GC_type::VEC_LONG:    gc = *m_data.v_l; break;
-    case GC_type::VEC_REAL:    gc = *m_data.v_r; break;
-    case GC_type::VEC_STRING:  gc = *m_data.v_s; break;
-
-    case GC_type::VECTOR:
-      gc.set_vector();
-      { vector_type const & v{*m_data.v};
-        vector_type       & vv = gc.set_vector(v.size());
-        for ( vector_type::size_type i{0}; i < v.size(); ++i )
-          v[i].to_gc(vv[i]);
-      }
-      break;
-    case GC_type::MAP:
-      gc.set_map();
-      { map_type const & m{*m_data.m};
-        for ( const auto &[fst, snd] : m )
-          snd.to_gc(gc[fst]);
-      }
-      break;
-    case GC_type::MAT_INTEGER: gc = *m_data.m_i; break;
-    case GC_type::MAT_LONG:    gc = *m_data.m_l; break;
-    case GC_type::MAT_REAL:    gc = *m_data.m_r; break;
-    case GC_type::VEC_COMPLEX: gc = *m_data.v_c; break;
-    case GC_type::MAT_COMPLEX: gc = *m_data.m_c; break;
-    case GC_type::POINTER:     gc = this->get_pointer<void *>(); break;
-    case GC_type::VEC_POINTER:
-      { vec_pointer_type const & v  = this->get_vec_pointer();
-        vec_pointer_type       & vv = gc.set_vec_pointer(v.size());
-        for ( vec_pointer_type::size_type i{0}; i < v.size(); ++i )
-          vv[i] = v[i];
-      }
-      break;
-    }
+    gc.from_gc( *this );
   }
 
   /*
@@ -3820,6 +3778,13 @@ namespace GC_namespace {
 
   void
   GenericContainer::from_gc( GenericContainer const & gc ) {
+    if ( GC_type::VECTOR == m_data_type || GC_type::MAP == m_data_type ) {
+      // gc may be a part of this container: copy it before releasing the old contents
+      GenericContainer tmp(gc);
+      std::swap( m_data,      tmp.m_data );
+      std::swap( m_data_type, tmp.m_data_type );
+      return;
+    }
     switch ( gc.get_type()) {
     case GC_type::NOTYPE:
       this->clear();
@@ -3859,18 +3824,13 @@ namespace GC_namespace {
       break;
 
     case GC_type::VECTOR:
-      this->set_vector();
-      { vector_type const & v{*gc.m_data.v};
-        vector_type       & vv = this->set_vector(v.size());
-        for ( vector_type::size_type i{0}; i < v.size(); ++i )
-          vv[i].from_gc(v[i]);
+      { vector_type tmp(*gc.m_data.v); // this may be a part of gc: copy before any change
+        this->set_vector().swap(tmp);
       }
       break;
     case GC_type::MAP:
-      this->set_map();
-      { map_type const & m{*gc.m_data.m};
-        for ( const auto &[fst, snd] : m )
-          (*this)[fst].from_gc(snd);
+      { map_type tmp(*gc.m_data.m); // this may be a part of gc: copy before any change
+        this->set_map().swap(tmp);
       }
       break;
     case GC_type::MAT_INTEGER:
@@ -3892,11 +3852,7 @@ namespace GC_namespace {
       this->set_pointer( gc.get_pointer<void *>() );
       break;
     case GC_type::VEC_POINTER:
-      { vec_pointer_type const & v  = gc.get_vec_pointer();
-        vec_pointer_type       & vv = this->set_vec_pointer(v.size());
-        for ( vec_pointer_type::size_type i{0}; i < v.size(); ++i )
-          vv[i] = v[i];
-      }
+      this->set_vec_pointer( gc.get_vec_pointer() );
       break;
     }
   }
@@ -3916,9 +3872,12 @@ namespace GC_namespace {
     )
     if ( m_data_type == GC_type::NOTYPE ) this->set_map();
     ck( where, GC_type::MAP );
-    { map_type const & m{gc.get_map()};
-      for ( const auto &[fst, snd] : m )
-        (*this)[fst].from_gc(snd);
+    { map_type const m(gc.get_map()); // gc may be a part of this container
+      for ( const auto &[fst, snd] : m ) {
+        GenericContainer & dst{ (*this)[fst] };
+        if ( GC_type::MAP == dst.m_data_type && GC_type::MAP == snd.m_data_type ) dst.merge( snd, where );
+        else                                                                      dst.from_gc( snd );
+      }
     }
   }
 
-- 
2.43.0


From a39c8320e29c491a8c12070fbd8299f5be0d3594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:13 +0000
Subject: [PATCH 020/106] fix: a constructor that fails half way leaks what it
 already allocated

Delegate to the default constructor, so that the destructor runs.
---
 include/GenericContainer/GenericContainer.hh | 28 ++++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/GenericContainer/GenericContainer.hh b/include/GenericContainer/GenericContainer.hh
index 1f93f2d..aecc5b8 100755
--- a/include/GenericContainer/GenericContainer.hh
+++ b/include/GenericContainer/GenericContainer.hh
@@ -3788,98 +3788,98 @@ namespace GC_namespace {
     //! \param[in] a initializer data
     //!
     GenericContainer( bool const & a )
-    : m_data_type(GC_type::NOTYPE) { this->operator=(a); }
+    : GenericContainer() { this->operator=(a); }
 
     //!
     //! Construct a generic container storing an integer
     //! \param[in] a initializer data
     //!
     GenericContainer( uint_type const & a )
-    : m_data_type(GC_type::NOTYPE) { *this = a; }
+    : GenericContainer() { *this = a; }
 
     //!
     //! Construct a generic container storing an integer
     //! \param[in] a initializer data
     //!
     GenericContainer( int_type const & a )
-    : m_data_type(GC_type::NOTYPE) { this->operator=(a); }
+    : GenericContainer() { this->operator=(a); }
 
     //!
     //! Construct a generic container storing an integer
     //! \param[in] a initializer data
     //!
     GenericContainer( ulong_type const & a )
-    : m_data_type(GC_type::NOTYPE) { *this = a; }
+    : GenericContainer() { *this = a; }
 
     //!
     //! Construct a generic container storing an integer
     //! \param[in] a initializer data
     //!
     GenericContainer( long_type const & a )
-    : m_data_type(GC_type::NOTYPE) { this->operator=(a); }
+    : GenericContainer() { this->operator=(a); }
 
     //!
     //! Construct a generic container storing a floating point number
     //! \param[in] a initializer data
     //!
     GenericContainer( float const & a )
-    : m_data_type(GC_type::NOTYPE) { this->operator=(a); }
+    : GenericContainer() { this->operator=(a); }
 
     //!
     //! Construct a generic container storing a floating point number
     //! \param[in] a initializer data
     //!
     GenericContainer( double const & a )
-    : m_data_type(GC_type::NOTYPE) { this->operator=(a); }
+    : GenericContainer() { this->operator=(a); }
 
     //!
     //! Construct a generic container storing a complex floating point number
     //! \param[in] a initializer data
     //!
     GenericContainer( complex<float> const & a )
-    : m_data_type(GC_type::NOTYPE) { this->operator=(a); }
+    : GenericContainer() { this->operator=(a); }
 
     //!
     //! Construct a generic container storing a complex floating point number
     //! \param[in] a initializer data
     //!
     GenericContainer( complex<double> const & a )
-    : m_data_type(GC_type::NOTYPE) { this->operator=(a); }
+    : GenericContainer() { this->operator=(a); }
 
     //!
     //! Construct a generic container storing a string or pointer
     //! \param[in] a initializer data
     //!
     GenericContainer( char const * a )
-    : m_data_type(GC_type::NOTYPE) { this->operator=(a); }
+    : GenericContainer() { this->operator=(a); }
 
     //!
     //! Construct a generic container storing a string or pointer
     //! \param[in] a initializer data
     //!
     GenericContainer( string const & a )
-    : m_data_type(GC_type::NOTYPE) { this->operator=(a); }
+    : GenericContainer() { this->operator=(a); }
 
     //!
     //! Construct a generic container storing a string or pointer
     //! \param[in] a initializer data
     //!
     GenericContainer( string_view a )
-    : m_data_type(GC_type::NOTYPE) { this->operator=(a); }
+    : GenericContainer() { this->operator=(a); }
 
     //!
     //! Construct a generic container storing a pointer
     //! \param[in] a initializer data
     //!
     GenericContainer( pointer_type a )
-    : m_data_type(GC_type::NOTYPE) { this->set_pointer(a); }
+    : GenericContainer() { this->set_pointer(a); }
 
     //!
     //! Construct a generic container copying container `gc`
     //! \param[in] gc initializer data
     //!
     GenericContainer( GenericContainer const & gc )
-    : m_data_type(GC_type::NOTYPE) { this->from_gc(gc); }
+    : GenericContainer() { this->from_gc(gc); }
 
     ///@}
 
-- 
2.43.0


From c14dcf74a79350de103dd99b56e174b89294fc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:13 +0000
Subject: [PATCH 021/106] fix: printing a pointer leaves the stream in
 hexadecimal mode

---
 src/GenericContainer.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 6cc7ec6..a18604a 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -3479,7 +3479,10 @@ namespace GC_namespace {
       stream << prefix << "null\n";
       break;
     case GC_type::POINTER:
-      stream << prefix << std::hex << std::showbase << reinterpret_cast<uintptr_t>(m_data.p) << '\n';
+      { auto const flags{ stream.flags() };
+        stream << prefix << std::hex << std::showbase << reinterpret_cast<uintptr_t>(m_data.p) << '\n';
+        stream.flags( flags );
+      }
       break;
     case GC_type::BOOL:
       stream << prefix << (m_data.b?"true":"false") << '\n';
@@ -3501,9 +3504,12 @@ namespace GC_namespace {
       break;
     case GC_type::VEC_POINTER:
       { vec_pointer_type const & v{*m_data.v_p};
-        for ( vec_pointer_type::size_type i{0}; i < v.size(); ++i )
+        auto const flags{ stream.flags() };
+        for ( vec_pointer_type::size_type i{0}; i < v.size(); ++i ) {
           stream << prefix << "vec_pointer(" << i << "): "
                  << std::hex << std::showbase << reinterpret_cast<uintptr_t>(v[i]) << '\n';
+          stream.flags( flags );
+        }
       }
       break;
     case GC_type::VEC_BOOL:
-- 
2.43.0


From f221b8c4f8fd03e8b5d4f0b7ced8ad039e5f0be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:54 +0000
Subject: [PATCH 022/106] fix: collapse throws or loses data when scalars,
 vectors, nulls and pointers are mixed

---
 src/GenericContainerCollapse.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/GenericContainerCollapse.cc b/src/GenericContainerCollapse.cc
index 1238a24..49bf85f 100755
--- a/src/GenericContainerCollapse.cc
+++ b/src/GenericContainerCollapse.cc
@@ -55,6 +55,7 @@ namespace GC_namespace {
         vector_type & v{*m_data.v};
         if ( v.empty() ) break; // empty vector nothing to do
         auto max_sub_type{GC_type::NOTYPE};
+        auto min_sub_type{GC_type::MAP};
         bool can_collapse{true};
         bool all_string{true};
         int_type last_nelem{-1};
@@ -64,6 +65,7 @@ namespace GC_namespace {
           auto ti{vi.get_type()};
           if ( ti != GC_type::STRING ) all_string = false;
           if ( max_sub_type < ti ) max_sub_type = ti;
+          if ( min_sub_type > ti ) min_sub_type = ti;
           int_type ne{ static_cast<int_type>(vi.get_num_elements()) };
           if ( last_nelem >= 0 && can_collapse ) {
             can_collapse = last_nelem == ne;
@@ -79,6 +81,9 @@ namespace GC_namespace {
           *this = tmp;
           break;
         }
+        // only scalars with scalars and vectors with vectors can be put together
+        if ( !( ( min_sub_type >= GC_type::BOOL     && max_sub_type <= GC_type::COMPLEX ) ||
+                ( min_sub_type >= GC_type::VEC_BOOL && max_sub_type <= GC_type::VEC_COMPLEX ) ) ) break;
         switch ( max_sub_type ) {
           case GC_type::BOOL: {
             vec_bool_type tmp; tmp.reserve(v.size());
-- 
2.43.0


From d0144f56f93fc3d1791d7ef20597b248a2dba192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:35 +0000
Subject: [PATCH 023/106] fix: copyto_vec_* to integers convert reals out of
 range (undefined behaviour)

---
 src/GenericContainerPromote.cc | 56 +++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 24 deletions(-)

diff --git a/src/GenericContainerPromote.cc b/src/GenericContainerPromote.cc
index 4368a21..e3a05a2 100755
--- a/src/GenericContainerPromote.cc
+++ b/src/GenericContainerPromote.cc
@@ -24,6 +24,7 @@
 #include "GenericContainer/GenericContainer.hh"
 #include <iomanip>
 #include <cmath>
+#include <limits>
 #include <algorithm>
 
 #ifdef __clang__
@@ -52,6 +53,13 @@ namespace GC_namespace {
   static bool isUnsigned( real_type const x )
   { return isInteger(x) && x >= 0; }
 
+  //! check if `x` is in the range of the integer type `T`
+  template <typename T>
+  static bool inRange( real_type const x ) {
+    real_type const top{ std::ldexp( static_cast<real_type>(1), std::numeric_limits<T>::digits ) };
+    return x < top && x >= ( std::numeric_limits<T>::is_signed ? -top : 0 );
+  }
+
   #endif
 
   // ---------------------------------------------------------------------------
@@ -86,7 +94,7 @@ namespace GC_namespace {
       case GC_type::REAL:
         rval = m_data.r;
         GC_ASSERT(
-          isInteger(rval),
+          isInteger(rval) && inRange<int_type>(rval),
           where << " copyto_vec_int: v[" << i << "] = " << rval
                 << " cannot be converted to `integer'"
         )
@@ -110,7 +118,7 @@ namespace GC_namespace {
       case GC_type::VEC_REAL:
         rval = (*m_data.v_r)[i];
         GC_ASSERT(
-          isInteger(rval),
+          isInteger(rval) && inRange<int_type>(rval),
           where << " copyto_vec_int: v[" << i << "] = " << rval
                 << " cannot be converted to `integer'"
         )
@@ -119,7 +127,7 @@ namespace GC_namespace {
       case GC_type::COMPLEX:
         cval = *m_data.c;
         GC_ASSERT(
-          isZero0(cval.imag()) && isInteger(cval.real()),
+          isZero0(cval.imag()) && isInteger(cval.real()) && inRange<int_type>(cval.real()),
           where << " copyto_vec_int: v[" << i << "] = "
                 << cval << " cannot be converted to `integer'"
         )
@@ -128,7 +136,7 @@ namespace GC_namespace {
       case GC_type::VEC_COMPLEX:
         cval = (*m_data.v_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isInteger(cval.real()),
+          isZero0(cval.imag()) && isInteger(cval.real()) && inRange<int_type>(cval.real()),
           where << " copyto_vec_int: v[" << i << "] = "
                 << cval << " cannot be converted to `integer'"
         )
@@ -149,7 +157,7 @@ namespace GC_namespace {
       case GC_type::MAT_REAL:
         rval = (*m_data.m_r)[i];
         GC_ASSERT(
-          isInteger(rval),
+          isInteger(rval) && inRange<int_type>(rval),
           where << " copyto_vec_int: v[" << i << "] = " << rval
                 << " cannot be converted to `integer'"
         )
@@ -158,7 +166,7 @@ namespace GC_namespace {
       case GC_type::MAT_COMPLEX:
         cval = (*m_data.m_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isInteger(cval.real()),
+          isZero0(cval.imag()) && isInteger(cval.real()) && inRange<int_type>(cval.real()),
           where << " copyto_vec_int: v[" << i << "] = "
                 << cval << " cannot be converted to `integer'"
         )
@@ -221,7 +229,7 @@ namespace GC_namespace {
       case GC_type::REAL:
         rval = m_data.r;
         GC_ASSERT(
-          isUnsigned(rval),
+          isUnsigned(rval) && inRange<uint_type>(rval),
           where << " copyto_vec_uint: v[" << i << "] = " << rval
                 << " cannot be converted to `unsigned integer'"
         )
@@ -251,7 +259,7 @@ namespace GC_namespace {
       case GC_type::VEC_REAL:
         rval = (*m_data.v_r)[i];
         GC_ASSERT(
-          isUnsigned(rval),
+          isUnsigned(rval) && inRange<uint_type>(rval),
           where << " copyto_vec_uint: v[" << i << "] = " << rval
                 << " cannot be converted to `unsigned integer'"
         )
@@ -260,7 +268,7 @@ namespace GC_namespace {
       case GC_type::COMPLEX:
         cval = *m_data.c;
         GC_ASSERT(
-          isZero0(cval.imag()) && isUnsigned(cval.real()),
+          isZero0(cval.imag()) && isUnsigned(cval.real()) && inRange<uint_type>(cval.real()),
           where << " copyto_vec_uint: v[" << i << "] = "
                 << cval << " cannot be converted to `unsigned integer'"
         )
@@ -269,7 +277,7 @@ namespace GC_namespace {
       case GC_type::VEC_COMPLEX:
         cval = (*m_data.v_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isUnsigned(cval.real()),
+          isZero0(cval.imag()) && isUnsigned(cval.real()) && inRange<uint_type>(cval.real()),
           where << " copyto_vec_int: v[" << i << "] = "
                 << cval << " cannot be converted to `unsigned integer'"
         );
@@ -296,7 +304,7 @@ namespace GC_namespace {
       case GC_type::MAT_REAL:
         rval = (*m_data.m_r)[i];
         GC_ASSERT(
-          isUnsigned(rval),
+          isUnsigned(rval) && inRange<uint_type>(rval),
           where << " copyto_vec_uint: v[" << i << "] = " << rval
                 << " cannot be converted to `unsigned integer'"
         )
@@ -305,7 +313,7 @@ namespace GC_namespace {
       case GC_type::MAT_COMPLEX:
         cval = (*m_data.m_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isUnsigned(cval.real()),
+          isZero0(cval.imag()) && isUnsigned(cval.real()) && inRange<uint_type>(cval.real()),
           where << " copyto_vec_uint: v[" << i << "] = "
                 << cval << " cannot be converted to `unsigned integer'"
         )
@@ -354,7 +362,7 @@ namespace GC_namespace {
       case GC_type::REAL:
         rval = m_data.r;
         GC_ASSERT(
-          isInteger(rval),
+          isInteger(rval) && inRange<long_type>(rval),
           where << " copyto_vec_long: v[" << i << "] = " << rval
                 << " cannot be converted to `long'"
         )
@@ -372,7 +380,7 @@ namespace GC_namespace {
       case GC_type::VEC_REAL:
         rval = (*m_data.v_r)[i];
         GC_ASSERT(
-          isInteger(rval),
+          isInteger(rval) && inRange<long_type>(rval),
           where << " copyto_vec_long: v[" << i << "] = " << rval
                 << " cannot be converted to `long'"
         )
@@ -381,7 +389,7 @@ namespace GC_namespace {
       case GC_type::COMPLEX:
         cval = *m_data.c;
         GC_ASSERT(
-          isZero0(cval.imag()) && isInteger(cval.real()),
+          isZero0(cval.imag()) && isInteger(cval.real()) && inRange<long_type>(cval.real()),
           where << " copyto_vec_long: v[" << i << "] = "
                 << cval << " cannot be converted to `long'"
         )
@@ -390,7 +398,7 @@ namespace GC_namespace {
       case GC_type::VEC_COMPLEX:
         cval = (*m_data.v_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isInteger(cval.real()),
+          isZero0(cval.imag()) && isInteger(cval.real()) && inRange<long_type>(cval.real()),
           where << " copyto_vec_long: v[" << i << "] = "
                 << cval << " cannot be converted to `long'"
         )
@@ -405,7 +413,7 @@ namespace GC_namespace {
       case GC_type::MAT_REAL:
         rval = (*m_data.m_r)[i];
         GC_ASSERT(
-          isInteger(rval),
+          isInteger(rval) && inRange<long_type>(rval),
           where << " copyto_vec_long: v[" << i << "] = " << rval
                 << " cannot be converted to `long'"
         )
@@ -414,7 +422,7 @@ namespace GC_namespace {
       case GC_type::MAT_COMPLEX:
         cval = (*m_data.m_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isInteger(cval.real()),
+          isZero0(cval.imag()) && isInteger(cval.real()) && inRange<long_type>(cval.real()),
           where << " copyto_vec_long: v[" << i << "] = "
                 << cval << " cannot be converted to `long'"
         )
@@ -477,7 +485,7 @@ namespace GC_namespace {
       case GC_type::REAL:
         rval = m_data.r;
         GC_ASSERT(
-          isUnsigned(rval),
+          isUnsigned(rval) && inRange<ulong_type>(rval),
           where << " copyto_vec_ulong: v[" << i << "] = " << rval
                 << " cannot be converted to `unsigned long'"
         )
@@ -507,7 +515,7 @@ namespace GC_namespace {
       case GC_type::VEC_REAL:
         rval = (*m_data.v_r)[i];
         GC_ASSERT(
-          isUnsigned(rval),
+          isUnsigned(rval) && inRange<ulong_type>(rval),
           where << " copyto_vec_ulong: v[" << i << "] = " << rval
                 << " cannot be converted to `unsigned long'"
         )
@@ -516,7 +524,7 @@ namespace GC_namespace {
       case GC_type::COMPLEX:
         cval = *m_data.c;
         GC_ASSERT(
-          isZero0(cval.imag()) && isUnsigned(cval.real()),
+          isZero0(cval.imag()) && isUnsigned(cval.real()) && inRange<ulong_type>(cval.real()),
           where << " copyto_vec_ulong: v[" << i << "] = "
                 << cval << " cannot be converted to `unsigned long'"
         )
@@ -525,7 +533,7 @@ namespace GC_namespace {
       case GC_type::VEC_COMPLEX:
         cval = (*m_data.v_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isUnsigned(cval.real()),
+          isZero0(cval.imag()) && isUnsigned(cval.real()) && inRange<ulong_type>(cval.real()),
           where << " copyto_vec_ulong: v[" << i << "] = "
                 << cval << " cannot be converted to `unsigned long'"
         );
@@ -552,7 +560,7 @@ namespace GC_namespace {
       case GC_type::MAT_REAL:
         rval = (*m_data.m_r)[i];
         GC_ASSERT(
-          isUnsigned(rval),
+          isUnsigned(rval) && inRange<ulong_type>(rval),
           where << " copyto_vec_ulong: v[" << i << "] = " << rval
                 << " cannot be converted to `unsigned long'"
         )
@@ -561,7 +569,7 @@ namespace GC_namespace {
       case GC_type::MAT_COMPLEX:
         cval = (*m_data.m_c)[i];
         GC_ASSERT(
-          isZero0(cval.imag()) && isUnsigned(cval.real()),
+          isZero0(cval.imag()) && isUnsigned(cval.real()) && inRange<ulong_type>(cval.real()),
           where << " copyto_vec_ulong: v[" << i << "] = "
                 << cval << " cannot be converted to `unsigned long'"
         )
-- 
2.43.0


From fb79a142cf0ff8e661fec3124f40ac6294fa7571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:35 +0000
Subject: [PATCH 024/106] fix: copyto_vec_complex rejects real and integer
 elements of a generic vector

---
 src/GenericContainerPromote.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GenericContainerPromote.cc b/src/GenericContainerPromote.cc
index e3a05a2..4f9f416 100755
--- a/src/GenericContainerPromote.cc
+++ b/src/GenericContainerPromote.cc
@@ -688,7 +688,7 @@ namespace GC_namespace {
       case GC_type::MAT_LONG:    val = { static_cast<real_type>((*m_data.m_l)[i]),0 };         break;
       case GC_type::MAT_REAL:    val = {(*m_data.m_r)[i],0};                                   break;
       case GC_type::MAT_COMPLEX: val = (*m_data.m_c)[i];                                                 break;
-      case GC_type::VECTOR:      val = (*this)(i).get_complex();                                         break;
+      case GC_type::VECTOR:      val = (*this)(i).get_complex_number();                                  break;
 
       case GC_type::NOTYPE:
       case GC_type::POINTER:
-- 
2.43.0


From 8a7c44e6057771f67d6026310c0b834c6633e7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:35 +0000
Subject: [PATCH 025/106] fix: copyto_mat_complex rejects a matrix of complex

---
 src/GenericContainerPromote.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/GenericContainerPromote.cc b/src/GenericContainerPromote.cc
index 4f9f416..0223a5b 100755
--- a/src/GenericContainerPromote.cc
+++ b/src/GenericContainerPromote.cc
@@ -1084,6 +1084,9 @@ namespace GC_namespace {
         std::copy_n( m_r->data(), m_r->num_rows()*m_r->num_cols(), m.data() );
       }
       break;
+    case GC_type::MAT_COMPLEX:
+      m = *m_data.m_c;
+      break;
     case GC_type::VECTOR:
       { vector_type const & v{*m_data.v};
         if ( auto nc{static_cast<unsigned>(v.size())}; nc > 0 ) {
@@ -1111,7 +1114,6 @@ namespace GC_namespace {
     case GC_type::STRING:
     case GC_type::VEC_POINTER:
     case GC_type::VEC_STRING:
-    case GC_type::MAT_COMPLEX:
     case GC_type::MAP:
       GC_DO_ERROR( where << "copyto_mat_complex() cannot promote " << get_type_name() << " to mat_complex_type" )
     }
-- 
2.43.0


From 79df8e8b7c1dd32e305a4304428850c98394f1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:17 +0000
Subject: [PATCH 026/106] fix: promote_to_mat_int writes reals into the integer
 matrix (heap overflow)

---
 src/GenericContainerPromote.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GenericContainerPromote.cc b/src/GenericContainerPromote.cc
index 0223a5b..9c7b1f0 100755
--- a/src/GenericContainerPromote.cc
+++ b/src/GenericContainerPromote.cc
@@ -1581,7 +1581,7 @@ namespace GC_namespace {
         m_data_type = GC_type::NOTYPE;
         set_mat_int(static_cast<unsigned>(v_b->size()),1);
         for ( unsigned i{0}; i < v_b->size(); ++i )
-          (*m_data.m_r)(i,0) = ((*v_b)[i]?1:0);
+          (*m_data.m_i)(i,0) = ((*v_b)[i]?1:0);
         delete v_b;
       }
       break;
@@ -1590,7 +1590,7 @@ namespace GC_namespace {
         m_data_type = GC_type::NOTYPE;
         set_mat_int(static_cast<unsigned>(v_i->size()),1);
         for ( unsigned i{0}; i < v_i->size(); ++i )
-          (*m_data.m_r)(i,0) = static_cast<real_type>((*v_i)[i]);
+          (*m_data.m_i)(i,0) = (*v_i)[i];
         delete v_i;
       }
       break;
-- 
2.43.0


From b931e5d7bdebf3ab6e3091022af1be8394b6aa32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:17 +0000
Subject: [PATCH 027/106] fix: promote_to_mat_long turns a vector of booleans
 into a matrix of reals

---
 src/GenericContainerPromote.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GenericContainerPromote.cc b/src/GenericContainerPromote.cc
index 9c7b1f0..c961d81 100755
--- a/src/GenericContainerPromote.cc
+++ b/src/GenericContainerPromote.cc
@@ -1637,9 +1637,9 @@ namespace GC_namespace {
     case GC_type::VEC_BOOL:
       { vec_bool_type const * v_b{m_data.v_b};
         m_data_type = GC_type::NOTYPE;
-        set_mat_real(static_cast<unsigned>(v_b->size()),1);
+        set_mat_long(static_cast<unsigned>(v_b->size()),1);
         for ( unsigned i{0}; i < v_b->size(); ++i )
-          (*m_data.m_r)(i,0) = ((*v_b)[i]?1:0);
+          (*m_data.m_l)(i,0) = ((*v_b)[i]?1:0);
         delete v_b;
       }
       break;
-- 
2.43.0


From 37367d170d970489afc9c8f899163313b384747f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:17 +0000
Subject: [PATCH 028/106] fix: promote_to_mat_complex from vectors stores the
 values as packed reals

---
 src/GenericContainerPromote.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/GenericContainerPromote.cc b/src/GenericContainerPromote.cc
index c961d81..af6d6af 100755
--- a/src/GenericContainerPromote.cc
+++ b/src/GenericContainerPromote.cc
@@ -1820,7 +1820,7 @@ namespace GC_namespace {
         m_data_type = GC_type::NOTYPE;
         set_mat_complex(static_cast<unsigned>(v_b->size()),1);
         for ( unsigned i{0}; i < v_b->size(); ++i )
-          (*m_data.m_r)(i,0) = ((*v_b)[i]?1:0);
+          (*m_data.m_c)(i,0) = ((*v_b)[i]?1:0);
         delete v_b;
       }
       break;
@@ -1829,7 +1829,7 @@ namespace GC_namespace {
         m_data_type = GC_type::NOTYPE;
         set_mat_complex(static_cast<unsigned>(v_i->size()),1);
         for ( unsigned i{0}; i < v_i->size(); ++i )
-          (*m_data.m_r)(i,0) = static_cast<real_type>((*v_i)[i]);
+          (*m_data.m_c)(i,0) = static_cast<real_type>((*v_i)[i]);
         delete v_i;
       }
       break;
@@ -1838,7 +1838,7 @@ namespace GC_namespace {
        m_data_type = GC_type::NOTYPE;
         set_mat_complex(static_cast<unsigned>(v_l->size()),1);
         for ( unsigned i{0}; i < v_l->size(); ++i )
-          (*m_data.m_r)(i,0) = static_cast<real_type>((*v_l)[i]);
+          (*m_data.m_c)(i,0) = static_cast<real_type>((*v_l)[i]);
         delete v_l;
       }
       break;
@@ -1847,7 +1847,7 @@ namespace GC_namespace {
         m_data_type = GC_type::NOTYPE;
         set_mat_complex(static_cast<unsigned>(v_r->size()),1);
         for ( unsigned i{0}; i < v_r->size(); ++i )
-          (*m_data.m_r)(i,0) = (*v_r)[i];
+          (*m_data.m_c)(i,0) = (*v_r)[i];
         delete v_r;
       }
       break;
-- 
2.43.0


From afd2a74854b8c2e0ec838b734cfd9037f478469d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:17 +0000
Subject: [PATCH 029/106] fix: promote_to_vector of a scalar reads it after it
 has been released

---
 src/GenericContainerPromote.cc | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/GenericContainerPromote.cc b/src/GenericContainerPromote.cc
index af6d6af..6e96a72 100755
--- a/src/GenericContainerPromote.cc
+++ b/src/GenericContainerPromote.cc
@@ -1900,25 +1900,16 @@ namespace GC_namespace {
       { set_vector(1); (*this)[0].clear(); } // set data to no type
       break;
     case GC_type::POINTER:
-      { set_vector(1); (*this)[0] = m_data.p; }
-      break;
     case GC_type::BOOL:
-      { set_vector(1); (*this)[0] = m_data.b; }
-      break;
     case GC_type::INTEGER:
-      { set_vector(1); (*this)[0] = m_data.i; }
-      break;
     case GC_type::LONG:
-      { set_vector(1); (*this)[0] = m_data.l; }
-      break;
     case GC_type::REAL:
-      { set_vector(1); (*this)[0] = m_data.r; }
-      break;
     case GC_type::COMPLEX:
-      { set_vector(1); (*this)[0] = *m_data.c; }
-      break;
     case GC_type::STRING:
-      { set_vector(1); (*this)[0] = *m_data.s; }
+      { GenericContainer const tmp(*this); // set_vector overwrites the stored scalar
+        set_vector(1);
+        (*this)[0] = tmp;
+      }
       break;
     case GC_type::VEC_POINTER:
       { vec_pointer_type const * v_p{m_data.v_p};
-- 
2.43.0


From 89e14d821f5144f9ed04d4ef135a8a1edb336635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:34 +0000
Subject: [PATCH 030/106] fix: a failed allocation while promoting a vector or
 matrix leaks the old data

---
 src/GenericContainerPromote.cc | 111 +++++++++++----------------------
 1 file changed, 38 insertions(+), 73 deletions(-)

diff --git a/src/GenericContainerPromote.cc b/src/GenericContainerPromote.cc
index 6e96a72..fe8b5bc 100755
--- a/src/GenericContainerPromote.cc
+++ b/src/GenericContainerPromote.cc
@@ -25,6 +25,7 @@
 #include <iomanip>
 #include <cmath>
 #include <limits>
+#include <memory>
 #include <algorithm>
 
 #ifdef __clang__
@@ -1298,12 +1299,11 @@ namespace GC_namespace {
       }
       break;
     case GC_type::VEC_BOOL:
-      { vec_bool_type * v_b{m_data.v_b};
+      { std::unique_ptr<vec_bool_type const> const v_b{m_data.v_b};
         m_data_type = GC_type::NOTYPE;
         set_vec_int(v_b->size());
         for ( unsigned i{0}; i < v_b->size(); ++i )
           (*m_data.v_i)[i] = ((*v_b)[i]?1:0);
-        delete v_b;
       }
       break;
     case GC_type::VEC_INTEGER:
@@ -1355,21 +1355,19 @@ namespace GC_namespace {
       }
       break;
     case GC_type::VEC_BOOL:
-      { vec_bool_type * v_b{m_data.v_b};
+      { std::unique_ptr<vec_bool_type const> const v_b{m_data.v_b};
         m_data_type = GC_type::NOTYPE;
         set_vec_long(v_b->size());
         for ( unsigned i{0}; i < v_b->size(); ++i )
           (*m_data.v_l)[i] = ((*v_b)[i]?1:0);
-        delete v_b;
       }
       break;
     case GC_type::VEC_INTEGER:
-      { vec_int_type const * v_i{m_data.v_i};
+      { std::unique_ptr<vec_int_type const> const v_i{m_data.v_i};
         m_data_type = GC_type::NOTYPE;
         set_vec_long(v_i->size());
         for ( unsigned i{0}; i < v_i->size(); ++i )
           (*m_data.v_l)[i] = static_cast<int_type>((*v_i)[i]);
-        delete v_i;
       }
       break;
     case GC_type::VEC_LONG: // nothing to do
@@ -1424,30 +1422,27 @@ namespace GC_namespace {
       }
       break;
     case GC_type::VEC_BOOL:
-      { vec_bool_type const * v_b{m_data.v_b}; // salva puntatore
+      { std::unique_ptr<vec_bool_type const> const v_b{m_data.v_b}; // salva puntatore
         m_data_type = GC_type::NOTYPE;
         set_vec_real(v_b->size());
         for ( unsigned i{0}; i < v_b->size(); ++i )
           (*m_data.v_r)[i] = ((*v_b)[i]?1:0);
-        delete v_b;
       }
       break;
     case GC_type::VEC_INTEGER:
-      { vec_int_type const * v_i{m_data.v_i}; // salva puntatore
+      { std::unique_ptr<vec_int_type const> const v_i{m_data.v_i}; // salva puntatore
         m_data_type = GC_type::NOTYPE;
         set_vec_real(v_i->size());
         for ( unsigned i{0}; i < v_i->size(); ++i )
           (*m_data.v_r)[i] = static_cast<real_type>((*v_i)[i]);
-        delete v_i;
       }
       break;
     case GC_type::VEC_LONG:
-      { vec_long_type const * v_l{m_data.v_l}; // salva puntatore
+      { std::unique_ptr<vec_long_type const> const v_l{m_data.v_l}; // salva puntatore
         m_data_type = GC_type::NOTYPE;
         set_vec_real(v_l->size());
         for ( unsigned i{0}; i < v_l->size(); ++i )
           (*m_data.v_r)[i] = static_cast<real_type>((*v_l)[i]);
-        delete v_l;
       }
       break;
     case GC_type::VEC_REAL:
@@ -1506,39 +1501,35 @@ namespace GC_namespace {
       }
       break;
     case GC_type::VEC_BOOL:
-      { vec_bool_type const * v_b{m_data.v_b};
+      { std::unique_ptr<vec_bool_type const> const v_b{m_data.v_b};
         m_data_type = GC_type::NOTYPE;
         set_vec_complex(v_b->size());
         for ( unsigned i{0}; i < v_b->size(); ++i )
           (*m_data.v_c)[i] = complex_type( (*v_b)[i] ? 1: 0, 0 );
-        delete v_b;
       }
       break;
     case GC_type::VEC_INTEGER:
-      { vec_int_type const * v_i{m_data.v_i};
+      { std::unique_ptr<vec_int_type const> const v_i{m_data.v_i};
         m_data_type = GC_type::NOTYPE;
         set_vec_complex(v_i->size());
         for ( unsigned i{0}; i < v_i->size(); ++i )
           (*m_data.v_c)[i] = complex_type( static_cast<real_type>((*v_i)[i]) , 0 );
-        delete v_i;
       }
       break;
     case GC_type::VEC_LONG:
-      { vec_long_type const * v_l{m_data.v_l};
+      { std::unique_ptr<vec_long_type const> const v_l{m_data.v_l};
         m_data_type = GC_type::NOTYPE;
         set_vec_complex(v_l->size());
         for ( unsigned i{0}; i < v_l->size(); ++i )
           (*m_data.v_c)[i] = complex_type( static_cast<real_type>((*v_l)[i]), 0 );
-        delete v_l;
       }
       break;
     case GC_type::VEC_REAL:
-      { vec_real_type const * v_r{m_data.v_r};
+      { std::unique_ptr<vec_real_type const> const v_r{m_data.v_r};
         m_data_type = GC_type::NOTYPE;
         set_vec_complex(v_r->size());
         for ( unsigned i{0}; i < v_r->size(); ++i )
           (*m_data.v_c)[i] = complex_type( (*v_r)[i], 0 );
-        delete v_r;
       }
       break;
     case GC_type::VEC_COMPLEX:
@@ -1577,21 +1568,19 @@ namespace GC_namespace {
       }
       break;
     case GC_type::VEC_BOOL:
-      { vec_bool_type const * v_b{m_data.v_b};
+      { std::unique_ptr<vec_bool_type const> const v_b{m_data.v_b};
         m_data_type = GC_type::NOTYPE;
         set_mat_int(static_cast<unsigned>(v_b->size()),1);
         for ( unsigned i{0}; i < v_b->size(); ++i )
           (*m_data.m_i)(i,0) = ((*v_b)[i]?1:0);
-        delete v_b;
       }
       break;
     case GC_type::VEC_INTEGER:
-      { vec_int_type const * v_i{m_data.v_i};
+      { std::unique_ptr<vec_int_type const> const v_i{m_data.v_i};
         m_data_type = GC_type::NOTYPE;
         set_mat_int(static_cast<unsigned>(v_i->size()),1);
         for ( unsigned i{0}; i < v_i->size(); ++i )
           (*m_data.m_i)(i,0) = (*v_i)[i];
-        delete v_i;
       }
       break;
     case GC_type::MAT_INTEGER:
@@ -1635,39 +1624,35 @@ namespace GC_namespace {
       }
       break;
     case GC_type::VEC_BOOL:
-      { vec_bool_type const * v_b{m_data.v_b};
+      { std::unique_ptr<vec_bool_type const> const v_b{m_data.v_b};
         m_data_type = GC_type::NOTYPE;
         set_mat_long(static_cast<unsigned>(v_b->size()),1);
         for ( unsigned i{0}; i < v_b->size(); ++i )
           (*m_data.m_l)(i,0) = ((*v_b)[i]?1:0);
-        delete v_b;
       }
       break;
     case GC_type::VEC_INTEGER:
-      { vec_int_type const * v_i{m_data.v_i};
+      { std::unique_ptr<vec_int_type const> const v_i{m_data.v_i};
         m_data_type = GC_type::NOTYPE;
         set_mat_long(static_cast<unsigned>(v_i->size()),1);
         for ( unsigned i{0}; i < v_i->size(); ++i )
           (*m_data.m_l)(i,0) = static_cast<long_type>((*v_i)[i]);
-        delete v_i;
       }
       break;
     case GC_type::VEC_LONG:
-      { vec_long_type const * v_l{m_data.v_l};
+      { std::unique_ptr<vec_long_type const> const v_l{m_data.v_l};
         m_data_type = GC_type::NOTYPE;
         set_mat_long(static_cast<unsigned>(v_l->size()),1);
         for ( unsigned i{0}; i < v_l->size(); ++i )
           (*m_data.m_l)(i,0) = (*v_l)[i];
-        delete v_l;
       }
       break;
     case GC_type::MAT_INTEGER:
-      { mat_int_type const * m_i{m_data.m_i};
+      { std::unique_ptr<mat_int_type const> const m_i{m_data.m_i};
         m_data_type = GC_type::NOTYPE;
         set_mat_long(m_i->num_rows(),m_i->num_cols());
         for ( unsigned i{0}; i < m_i->size(); ++i )
           (*m_data.m_l)[i] = static_cast<long_type>((*m_i)[i]);
-        delete m_i;
       }
       break;
     case GC_type::MAT_LONG:
@@ -1715,57 +1700,51 @@ namespace GC_namespace {
       }
       break;
     case GC_type::VEC_BOOL:
-      { vec_bool_type const * v_b{m_data.v_b};
+      { std::unique_ptr<vec_bool_type const> const v_b{m_data.v_b};
         m_data_type = GC_type::NOTYPE;
         set_mat_real(static_cast<unsigned>(v_b->size()),1);
         for ( unsigned i{0}; i < v_b->size(); ++i )
           (*m_data.m_r)(i,0) = ((*v_b)[i]?1:0);
-        delete v_b;
       }
       break;
     case GC_type::VEC_INTEGER:
-      { vec_int_type const * v_i{m_data.v_i};
+      { std::unique_ptr<vec_int_type const> const v_i{m_data.v_i};
         m_data_type = GC_type::NOTYPE;
         set_mat_real(static_cast<unsigned>(v_i->size()),1);
         for ( unsigned i{0}; i < v_i->size(); ++i )
           (*m_data.m_r)(i,0) = static_cast<real_type>((*v_i)[i]);
-        delete v_i;
       }
       break;
     case GC_type::VEC_LONG:
-      { vec_long_type const * v_l{m_data.v_l};
+      { std::unique_ptr<vec_long_type const> const v_l{m_data.v_l};
         m_data_type = GC_type::NOTYPE;
         set_mat_real(static_cast<unsigned>(v_l->size()),1);
         for ( unsigned i{0}; i < v_l->size(); ++i )
           (*m_data.m_r)(i,0) = static_cast<real_type>((*v_l)[i]);
-        delete v_l;
       }
       break;
     case GC_type::VEC_REAL:
-      { vec_real_type const * v_r{m_data.v_r};
+      { std::unique_ptr<vec_real_type const> const v_r{m_data.v_r};
         m_data_type = GC_type::NOTYPE;
         set_mat_real(static_cast<unsigned>(v_r->size()),1);
         for ( unsigned i{0}; i < v_r->size(); ++i )
           (*m_data.m_r)(i,0) = (*v_r)[i];
-        delete v_r;
       }
       break;
     case GC_type::MAT_INTEGER:
-      { mat_int_type const * m_i{m_data.m_i};
+      { std::unique_ptr<mat_int_type const> const m_i{m_data.m_i};
         m_data_type = GC_type::NOTYPE;
         set_mat_real(m_i->num_rows(),m_i->num_cols());
         for ( unsigned i{0}; i < m_i->size(); ++i )
           (*m_data.m_r)[i] = static_cast<real_type>((*m_i)[i]);
-        delete m_i;
       }
       break;
     case GC_type::MAT_LONG:
-      { mat_long_type const * m_l{m_data.m_l};
+      { std::unique_ptr<mat_long_type const> const m_l{m_data.m_l};
         m_data_type = GC_type::NOTYPE;
         set_mat_real(m_l->num_rows(),m_l->num_cols());
         for ( unsigned i{0}; i < m_l->size(); ++i )
           (*m_data.m_r)[i] = static_cast<real_type>((*m_l)[i]);
-        delete m_l;
       }
       break;
     case GC_type::MAT_REAL:
@@ -1816,66 +1795,59 @@ namespace GC_namespace {
       }
       break;
     case GC_type::VEC_BOOL:
-      { vec_bool_type const * v_b{m_data.v_b};
+      { std::unique_ptr<vec_bool_type const> const v_b{m_data.v_b};
         m_data_type = GC_type::NOTYPE;
         set_mat_complex(static_cast<unsigned>(v_b->size()),1);
         for ( unsigned i{0}; i < v_b->size(); ++i )
           (*m_data.m_c)(i,0) = ((*v_b)[i]?1:0);
-        delete v_b;
       }
       break;
     case GC_type::VEC_INTEGER:
-      { vec_int_type const * v_i{m_data.v_i};
+      { std::unique_ptr<vec_int_type const> const v_i{m_data.v_i};
         m_data_type = GC_type::NOTYPE;
         set_mat_complex(static_cast<unsigned>(v_i->size()),1);
         for ( unsigned i{0}; i < v_i->size(); ++i )
           (*m_data.m_c)(i,0) = static_cast<real_type>((*v_i)[i]);
-        delete v_i;
       }
       break;
     case GC_type::VEC_LONG:
-      { vec_long_type const * v_l{m_data.v_l};
-       m_data_type = GC_type::NOTYPE;
+      { std::unique_ptr<vec_long_type const> const v_l{m_data.v_l};
+        m_data_type = GC_type::NOTYPE;
         set_mat_complex(static_cast<unsigned>(v_l->size()),1);
         for ( unsigned i{0}; i < v_l->size(); ++i )
           (*m_data.m_c)(i,0) = static_cast<real_type>((*v_l)[i]);
-        delete v_l;
       }
       break;
     case GC_type::VEC_REAL:
-      { vec_real_type const * v_r{m_data.v_r};
+      { std::unique_ptr<vec_real_type const> const v_r{m_data.v_r};
         m_data_type = GC_type::NOTYPE;
         set_mat_complex(static_cast<unsigned>(v_r->size()),1);
         for ( unsigned i{0}; i < v_r->size(); ++i )
           (*m_data.m_c)(i,0) = (*v_r)[i];
-        delete v_r;
       }
       break;
     case GC_type::MAT_INTEGER:
-      { mat_int_type const * m_i{m_data.m_i};
+      { std::unique_ptr<mat_int_type const> const m_i{m_data.m_i};
         m_data_type = GC_type::NOTYPE;
         set_mat_complex(m_i->num_rows(),m_i->num_cols());
         for ( unsigned i{0}; i < m_i->size(); ++i )
           (*m_data.m_c)[i] = complex_type( static_cast<real_type>((*m_i)[i]), 0 );
-        delete m_i;
       }
       break;
     case GC_type::MAT_LONG:
-      { mat_long_type const * m_l{m_data.m_l};
+      { std::unique_ptr<mat_long_type const> const m_l{m_data.m_l};
         m_data_type = GC_type::NOTYPE;
         set_mat_complex(m_l->num_rows(),m_l->num_cols());
         for ( unsigned i{0}; i < m_l->size(); ++i )
           (*m_data.m_c)[i] = complex_type( static_cast<real_type>((*m_l)[i]), 0 );
-        delete m_l;
       }
       break;
     case GC_type::MAT_REAL:
-      { mat_real_type const * m_r{m_data.m_r};
+      { std::unique_ptr<mat_real_type const> const m_r{m_data.m_r};
         m_data_type = GC_type::NOTYPE;
         set_mat_complex(m_r->num_rows(),m_r->num_cols());
         for ( unsigned i{0}; i < m_r->size(); ++i )
           (*m_data.m_c)[i] = complex_type((*m_r)[i],0);
-        delete m_r;
       }
       break;
     case GC_type::MAT_COMPLEX:
@@ -1912,66 +1884,59 @@ namespace GC_namespace {
       }
       break;
     case GC_type::VEC_POINTER:
-      { vec_pointer_type const * v_p{m_data.v_p};
+      { std::unique_ptr<vec_pointer_type const> const v_p{m_data.v_p};
         m_data_type = GC_type::NOTYPE;
         set_vector(v_p->size());
         for ( unsigned i{0}; i < v_p->size(); ++i )
           (*m_data.v)[i] = (*v_p)[i];
-        delete v_p;
       }
       break;
     case GC_type::VEC_BOOL:
-      { vec_bool_type const * v_b{m_data.v_b};
+      { std::unique_ptr<vec_bool_type const> const v_b{m_data.v_b};
         m_data_type = GC_type::NOTYPE;
         set_vector(v_b->size());
         for ( unsigned i{0}; i < v_b->size(); ++i )
           (*m_data.v)[i] = (*v_b)[i];
-        delete v_b;
       }
       break;
     case GC_type::VEC_INTEGER:
-      { vec_int_type const * v_i{m_data.v_i};
+      { std::unique_ptr<vec_int_type const> const v_i{m_data.v_i};
         m_data_type = GC_type::NOTYPE;
         set_vector(static_cast<unsigned>(v_i->size()));
         for ( unsigned i{0}; i < v_i->size(); ++i )
           (*m_data.v)[i] = (*v_i)[i];
-        delete v_i;
       }
       break;
     case GC_type::VEC_LONG:
-      { vec_long_type const * v_l{m_data.v_l};
+      { std::unique_ptr<vec_long_type const> const v_l{m_data.v_l};
         m_data_type = GC_type::NOTYPE;
         set_vector(v_l->size());
         for ( unsigned i{0}; i < v_l->size(); ++i )
           (*m_data.v)[i] = (*v_l)[i];
-        delete v_l;
       }
       break;
     case GC_type::VEC_REAL:
-      { vec_real_type const * v_r{m_data.v_r};
+      { std::unique_ptr<vec_real_type const> const v_r{m_data.v_r};
         m_data_type = GC_type::NOTYPE;
         set_vector(v_r->size());
         for ( unsigned i{0}; i < v_r->size(); ++i )
           (*m_data.v)[i] = (*v_r)[i];
-        delete v_r;
       }
       break;
     case GC_type::VEC_COMPLEX:
-      { vec_complex_type const * v_c{m_data.v_c};
+      { std::unique_ptr<vec_complex_type const> const v_c{m_data.v_c};
         m_data_type = GC_type::NOTYPE;
         set_vector(v_c->size());
         for ( unsigned i{0}; i < v_c->size(); ++i )
           (*m_data.v)[i] = (*v_c)[i];
-        delete v_c;
       }
       break;
     case GC_type::VEC_STRING:
-      { vec_string_type const * v_s{m_data.v_s};
+      { std::unique_ptr<vec_string_type const> const v_s{m_data.v_s};
         m_data_type = GC_type::NOTYPE;
         set_vector(v_s->size());
         for ( unsigned i{0}; i < v_s->size(); ++i )
           (*m_data.v)[i] = (*v_s)[i];
-        delete v_s;
       }
       break;
     case GC_type::VECTOR:
-- 
2.43.0


From 0eb7d61c15d8f1fad7f597e625c2649b4b082155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:26 +0000
Subject: [PATCH 031/106] fix: (de)serialization of a matrix of complex falls
 through to the vector of strings

---
 src/GenericContainerSerialize.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GenericContainerSerialize.cc b/src/GenericContainerSerialize.cc
index c8b0958..7781283 100755
--- a/src/GenericContainerSerialize.cc
+++ b/src/GenericContainerSerialize.cc
@@ -327,6 +327,7 @@ namespace GC_namespace {
         nb = double_to_buffer( c.imag(), buffer, available );
         buffer += nb; available -= nb;
       }
+      break;
     case GC_type::VEC_STRING:
       nb = int32_to_buffer( static_cast<int32_t>(m_data.v_s->size()), buffer, available );
       buffer += nb; available -= nb;
@@ -522,6 +523,7 @@ namespace GC_namespace {
         sz = buffer_to_double( buffer, &bf ); c.imag(bf);
         nb += sz; buffer += sz; nbyte += sz;
       }
+      break;
     case GC_type::VEC_STRING:
       nb = buffer_to_int32( buffer, &i32 );
       buffer += nb; nbyte += nb;
-- 
2.43.0


From ba7c4560e6b1ad854ffd9479682cdbf1a513c398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:26 +0000
Subject: [PATCH 032/106] fix: serialize calls front() on empty strings

---
 src/GenericContainerSerialize.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/GenericContainerSerialize.cc b/src/GenericContainerSerialize.cc
index 7781283..b977265 100755
--- a/src/GenericContainerSerialize.cc
+++ b/src/GenericContainerSerialize.cc
@@ -227,7 +227,7 @@ namespace GC_namespace {
       nb = int32_to_buffer( sz, buffer, available );
       buffer += nb; available -= nb;
       GC_ASSERT( sz <= available, msg );
-      memcpy( buffer, &m_data.s->front(), sz );
+      memcpy( buffer, m_data.s->c_str(), sz );
       buffer += sz; available -= sz;
       break;
     case GC_type::COMPLEX:
@@ -336,7 +336,7 @@ namespace GC_namespace {
         nb = int32_to_buffer( sz, buffer, available );
         buffer += nb; available -= nb;
         GC_ASSERT( sz <= available, msg );
-        memcpy( buffer, &s.front(), sz );
+        memcpy( buffer, s.c_str(), sz );
         buffer += sz; available -= sz;
       }
       break;
@@ -356,7 +356,7 @@ namespace GC_namespace {
         nb = int32_to_buffer( sz, buffer, available );
         buffer += nb; available -= nb;
         GC_ASSERT( sz <= available, msg );
-        memcpy( buffer, &fst.front(), sz );
+        memcpy( buffer, fst.c_str(), sz );
         buffer += sz; available -= sz;
         nb = snd.serialize( available, buffer );
         buffer += nb; available -= nb;
-- 
2.43.0


From fe0ef6f7b3e150e934caae3ed8479d9b0d434aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:50 +0000
Subject: [PATCH 033/106] fix: de_serialize reads past the end of truncated or
 corrupted buffers

Counts and lengths found in the buffer are checked against the bytes that
remain, an unknown type is an error, and strings keep embedded NULs.
---
 src/GenericContainerSerialize.cc | 144 ++++++++++++++++++++-----------
 1 file changed, 93 insertions(+), 51 deletions(-)

diff --git a/src/GenericContainerSerialize.cc b/src/GenericContainerSerialize.cc
index b977265..1bab3ea 100755
--- a/src/GenericContainerSerialize.cc
+++ b/src/GenericContainerSerialize.cc
@@ -30,6 +30,7 @@ namespace GC_namespace {
   using std::memcpy;
 
   static constexpr char msg[]{"GenericContainer::serialize, memory exausted use method mem_size() to estimate memory requirement"};
+  static constexpr char msg_trunc[]{"GenericContainer::de_serialize, truncated or corrupted buffer"};
 
   static
   uint32_t
@@ -90,14 +91,16 @@ namespace GC_namespace {
 
   static
   uint32_t
-  buffer_to_uint8( uint8_t const * buffer, uint8_t * out ) {
+  buffer_to_uint8( uint8_t const * buffer, uint8_t * out, int32_t const available ) {
+    GC_ASSERT( available >= 1, msg_trunc );
     *out = buffer[0];
     return sizeof(uint8_t);
   }
 
   static
   uint32_t
-  buffer_to_uint32( uint8_t const * buffer, uint32_t * out ) {
+  buffer_to_uint32( uint8_t const * buffer, uint32_t * out, int32_t const available ) {
+    GC_ASSERT( available >= 4, msg_trunc );
     uint32_t const tmp0{ buffer[0] };
     uint32_t const tmp1{ buffer[1] };
     uint32_t const tmp2{ buffer[2] };
@@ -108,13 +111,14 @@ namespace GC_namespace {
 
   static
   uint32_t
-  buffer_to_int32( uint8_t const * buffer, int32_t * out ) {
-    return buffer_to_uint32( buffer, reinterpret_cast<uint32_t*>(out) );
+  buffer_to_int32( uint8_t const * buffer, int32_t * out, int32_t const available ) {
+    return buffer_to_uint32( buffer, reinterpret_cast<uint32_t*>(out), available );
   }
 
   static
   uint32_t
-  buffer_to_uint64( uint8_t const * buffer, uint64_t * out ) {
+  buffer_to_uint64( uint8_t const * buffer, uint64_t * out, int32_t const available ) {
+    GC_ASSERT( available >= 8, msg_trunc );
     uint64_t const tmp0{ buffer[0] };
     uint64_t const tmp1{ buffer[1] };
     uint64_t const tmp2{ buffer[2] };
@@ -129,19 +133,42 @@ namespace GC_namespace {
 
   static
   uint32_t
-  buffer_to_int64( uint8_t const * buffer, int64_t * out ) {
-    return buffer_to_uint64( buffer, reinterpret_cast<uint64_t*>(out) );
+  buffer_to_int64( uint8_t const * buffer, int64_t * out, int32_t const available ) {
+    return buffer_to_uint64( buffer, reinterpret_cast<uint64_t*>(out), available );
   }
 
   static
   uint32_t
-  buffer_to_double( uint8_t const * buffer, double * out ) {
+  buffer_to_double( uint8_t const * buffer, double * out, int32_t const available ) {
     union { double f; uint64_t i; } tmp;
-    buffer_to_uint64( buffer, &tmp.i );
+    buffer_to_uint64( buffer, &tmp.i, available );
     *out = tmp.f;
     return sizeof(double);
   }
 
+  // check that `n` elements of (at least) `elem_size` bytes may be stored in the remaining buffer
+  static
+  void
+  check_count( int32_t const n, int32_t const elem_size, int32_t const available ) {
+    GC_ASSERT( n >= 0 && n <= available/elem_size, msg_trunc );
+  }
+
+  static
+  void
+  check_count( int32_t const nr, int32_t const nc, int32_t const elem_size, int32_t const available ) {
+    GC_ASSERT(
+      nr >= 0 && nc >= 0 && static_cast<int64_t>(nr)*nc <= available/elem_size, msg_trunc
+    );
+  }
+
+  // read a string of `sz` bytes, `0` at the end included
+  static
+  void
+  buffer_to_string( uint8_t const * buffer, string_type & out, int32_t const sz, int32_t const available ) {
+    GC_ASSERT( sz > 0 && sz <= available && buffer[sz-1] == 0, msg_trunc );
+    out.assign( reinterpret_cast<char const*>(buffer), sz-1 );
+  }
+
   int32_t
   GenericContainer::mem_size() const {
     constexpr int32_t header_size { sizeof(int32_t) };
@@ -375,13 +402,13 @@ namespace GC_namespace {
   int32_t
   GenericContainer::de_serialize( int32_t buffer_dim, uint8_t const * buffer ) {
     //int_type ptr_size = 8;
-    int32_t sz, nb, nbyte;
+    int32_t sz, nb, nbyte{0};
     double  bf;
 
     this->clear();
 
     int32_t nr, nc, i32;
-    nbyte = nb = buffer_to_int32( buffer, &i32 );
+    nbyte = nb = buffer_to_int32( buffer, &i32, buffer_dim-nbyte );
     buffer += nb;
 
     switch (static_cast<TypeAllowed>(i32)) {
@@ -389,155 +416,166 @@ namespace GC_namespace {
       m_data_type = GC_type::NOTYPE;
       break;
     case GC_type::BOOL:
-      m_data_type = GC_type::BOOL;
       uint8_t b;
-      nb = buffer_to_uint8( buffer, &b );
+      nb = buffer_to_uint8( buffer, &b, buffer_dim-nbyte );
+      m_data_type = GC_type::BOOL;
       buffer += nb; nbyte += nb;
       m_data.b = b > 0;
       break;
     case GC_type::INTEGER:
+      nb = buffer_to_int32( buffer, &m_data.i, buffer_dim-nbyte );
       m_data_type = GC_type::INTEGER;
-      nb = buffer_to_int32( buffer, &m_data.i );
       buffer += nb; nbyte += nb;
       break;
     case GC_type::LONG:
+      nb = buffer_to_int64( buffer, &m_data.l, buffer_dim-nbyte );
       m_data_type = GC_type::LONG;
-      nb = buffer_to_int64( buffer, &m_data.l );
       buffer += nb; nbyte += nb;
       break;
     case GC_type::REAL:
+      nb = buffer_to_double( buffer, &m_data.r, buffer_dim-nbyte );
       m_data_type = GC_type::REAL;
-      nb = buffer_to_double( buffer, &m_data.r );
       buffer += nb; nbyte += nb;
       break;
     case GC_type::POINTER:
       break;
     case GC_type::STRING:
-      nb = buffer_to_int32( buffer, &i32 );
+      nb = buffer_to_int32( buffer, &i32, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
       allocate_string();
-      *m_data.s = reinterpret_cast<char const*>(buffer);
+      buffer_to_string( buffer, *m_data.s, i32, buffer_dim-nbyte );
       buffer += i32; nbyte += i32;
       break;
     case GC_type::COMPLEX:
       allocate_complex();
-      nb = buffer_to_double( buffer, &bf ); m_data.c->real(bf);
+      nb = buffer_to_double( buffer, &bf, buffer_dim-nbyte ); m_data.c->real(bf);
       buffer += nb; nbyte += nb;
-      nb = buffer_to_double( buffer, &bf ); m_data.c->imag(bf);
+      nb = buffer_to_double( buffer, &bf, buffer_dim-nbyte ); m_data.c->imag(bf);
       buffer += nb; nbyte += nb;
       break;
     case GC_type::VEC_POINTER:
       break;
     case GC_type::VEC_BOOL:
-      nb = buffer_to_int32( buffer, &i32 );
+      nb = buffer_to_int32( buffer, &i32, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
+      check_count( i32, 1, buffer_dim-nbyte );
       allocate_vec_bool(0);
       m_data.v_b->reserve(i32);
       for ( int32_t i = 0; i < i32; ++i ) {
         uint8_t i8;
-        buffer_to_uint8( buffer, &i8 );
+        buffer_to_uint8( buffer, &i8, buffer_dim-nbyte );
         ++nb; ++buffer; ++nbyte;
         m_data.v_b->push_back( i8 > 0 );
       }
       break;
     case GC_type::VEC_INTEGER:
-      nb = buffer_to_int32( buffer, &i32 );
+      nb = buffer_to_int32( buffer, &i32, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
+      check_count( i32, 4, buffer_dim-nbyte );
       allocate_vec_int(i32);
       for ( auto & i : *m_data.v_i ) {
-        sz = buffer_to_int32( buffer, &i );
+        sz = buffer_to_int32( buffer, &i, buffer_dim-nbyte );
         nb += sz; buffer += sz; nbyte += sz;
       }
       break;
     case GC_type::VEC_LONG:
-      nb = buffer_to_int32( buffer, &i32 );
+      nb = buffer_to_int32( buffer, &i32, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
+      check_count( i32, 8, buffer_dim-nbyte );
       allocate_vec_long(i32);
       for ( auto & i : *m_data.v_l ) {
-        sz = buffer_to_int64( buffer, &i );
+        sz = buffer_to_int64( buffer, &i, buffer_dim-nbyte );
         nb += sz; buffer += sz; nbyte += sz;
       }
       break;
     case GC_type::VEC_REAL:
-      nb = buffer_to_int32( buffer, &i32 );
+      nb = buffer_to_int32( buffer, &i32, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
+      check_count( i32, 8, buffer_dim-nbyte );
       allocate_vec_real(i32);
       for ( auto & r : *m_data.v_r ) {
-        sz = buffer_to_double( buffer, &r );
+        sz = buffer_to_double( buffer, &r, buffer_dim-nbyte );
         nb += sz; buffer += sz; nbyte += sz;
       }
       break;
     case GC_type::VEC_COMPLEX:
-      nb = buffer_to_int32( buffer, &i32 );
+      nb = buffer_to_int32( buffer, &i32, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
+      check_count( i32, 16, buffer_dim-nbyte );
       allocate_vec_complex(i32);
       for ( auto & c : *m_data.v_c ) {
-        sz = buffer_to_double( buffer, &bf ); c.real(bf);
+        sz = buffer_to_double( buffer, &bf, buffer_dim-nbyte ); c.real(bf);
         nb += sz; buffer += sz; nbyte += sz;
-        sz = buffer_to_double( buffer, &bf ); c.imag(bf);
+        sz = buffer_to_double( buffer, &bf, buffer_dim-nbyte ); c.imag(bf);
         nb += sz; buffer += sz; nbyte += sz;
       }
       break;
     case GC_type::MAT_INTEGER:
-      nb = buffer_to_int32( buffer, &nr );
+      nb = buffer_to_int32( buffer, &nr, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
-      nb = buffer_to_int32( buffer, &nc );
+      nb = buffer_to_int32( buffer, &nc, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
+      check_count( nr, nc, 4, buffer_dim-nbyte );
       allocate_mat_int( nr, nc );
       for ( auto & i : *m_data.m_i ) {
-        sz = buffer_to_int32( buffer, &i );
+        sz = buffer_to_int32( buffer, &i, buffer_dim-nbyte );
         nb += sz; buffer += sz; nbyte += sz;
       }
       break;
     case GC_type::MAT_LONG:
-      nb = buffer_to_int32( buffer, &nr );
+      nb = buffer_to_int32( buffer, &nr, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
-      nb = buffer_to_int32( buffer, &nc );
+      nb = buffer_to_int32( buffer, &nc, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
+      check_count( nr, nc, 8, buffer_dim-nbyte );
       allocate_mat_long( nr, nc );
       for ( auto & i : *m_data.m_l ) {
-        sz = buffer_to_int64( buffer, &i );
+        sz = buffer_to_int64( buffer, &i, buffer_dim-nbyte );
         nb += sz; buffer += sz; nbyte += sz;
       }
       break;
     case GC_type::MAT_REAL:
-      nb = buffer_to_int32( buffer, &nr );
+      nb = buffer_to_int32( buffer, &nr, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
-      nb = buffer_to_int32( buffer, &nc );
+      nb = buffer_to_int32( buffer, &nc, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
+      check_count( nr, nc, 8, buffer_dim-nbyte );
       allocate_mat_real( nr, nc );
       for ( auto & r : *m_data.m_r ) {
-        sz = buffer_to_double( buffer, &r );
+        sz = buffer_to_double( buffer, &r, buffer_dim-nbyte );
         nb += sz; buffer += sz; nbyte += sz;
       }
       break;
     case GC_type::MAT_COMPLEX:
-      nb = buffer_to_int32( buffer, &nr );
+      nb = buffer_to_int32( buffer, &nr, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
-      nb = buffer_to_int32( buffer, &nc );
+      nb = buffer_to_int32( buffer, &nc, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
+      check_count( nr, nc, 16, buffer_dim-nbyte );
       allocate_mat_complex( nr, nc );
       for ( auto & c : *m_data.m_c ) {
-        sz = buffer_to_double( buffer, &bf ); c.real(bf);
+        sz = buffer_to_double( buffer, &bf, buffer_dim-nbyte ); c.real(bf);
         nb += sz; buffer += sz; nbyte += sz;
-        sz = buffer_to_double( buffer, &bf ); c.imag(bf);
+        sz = buffer_to_double( buffer, &bf, buffer_dim-nbyte ); c.imag(bf);
         nb += sz; buffer += sz; nbyte += sz;
       }
       break;
     case GC_type::VEC_STRING:
-      nb = buffer_to_int32( buffer, &i32 );
+      nb = buffer_to_int32( buffer, &i32, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
+      check_count( i32, 5, buffer_dim-nbyte );
       allocate_vec_string(i32);
       for ( auto & s : *m_data.v_s ) {
-        nb = buffer_to_int32( buffer, &i32 );
+        nb = buffer_to_int32( buffer, &i32, buffer_dim-nbyte );
         buffer += nb; nbyte += nb;
-        s = reinterpret_cast<char const*>(buffer);
+        buffer_to_string( buffer, s, i32, buffer_dim-nbyte );
         buffer += i32; nbyte += i32;
       }
       break;
     case GC_type::VECTOR:
-      nb = buffer_to_int32( buffer, &i32 );
+      nb = buffer_to_int32( buffer, &i32, buffer_dim-nbyte );
       buffer += nb; nbyte += nb;
+      check_count( i32, 4, buffer_dim-nbyte );
       allocate_vector(i32);
       for ( auto & S : *m_data.v ) {
         sz = S.de_serialize( buffer_dim-nbyte, buffer );
@@ -545,19 +583,23 @@ namespace GC_namespace {
       }
       break;
     case GC_type::MAP:
-      nb = buffer_to_int32( buffer, &i32 ); nr = i32;
+      nb = buffer_to_int32( buffer, &i32, buffer_dim-nbyte ); nr = i32;
       buffer += nb; nbyte += nb;
+      check_count( nr, 9, buffer_dim-nbyte );
       allocate_map();
       for ( int32_t i = 0; i < nr; ++i ) {
-        nb = buffer_to_int32( buffer, &i32 );
+        nb = buffer_to_int32( buffer, &i32, buffer_dim-nbyte );
         buffer += nb; nbyte += nb;
-        string_type key = reinterpret_cast<char const*>(buffer);
+        string_type key;
+        buffer_to_string( buffer, key, i32, buffer_dim-nbyte );
         buffer += i32; nbyte += i32;
         //std::cout << "key[" << i << "] = " << key << '\n';
         sz = (*m_data.m)[key].de_serialize( buffer_dim-nbyte, buffer );
         buffer += sz; nbyte += sz;
       }
       break;
+    default:
+      GC_DO_ERROR( "GenericContainer::de_serialize, unknown type " << i32 );
     }
     GC_ASSERT(
       nbyte <= buffer_dim,
-- 
2.43.0


From da7ff686e8afa4eb9a9acad65bb11ec06bca94f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:53 +0000
Subject: [PATCH 034/106] fix: de_serialize of pointers does not consume their
 bytes and garbles what follows

---
 src/GenericContainerSerialize.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/GenericContainerSerialize.cc b/src/GenericContainerSerialize.cc
index 1bab3ea..f0a768a 100755
--- a/src/GenericContainerSerialize.cc
+++ b/src/GenericContainerSerialize.cc
@@ -403,6 +403,7 @@ namespace GC_namespace {
   GenericContainer::de_serialize( int32_t buffer_dim, uint8_t const * buffer ) {
     //int_type ptr_size = 8;
     int32_t sz, nb, nbyte{0};
+    int64_t i64;
     double  bf;
 
     this->clear();
@@ -438,6 +439,10 @@ namespace GC_namespace {
       buffer += nb; nbyte += nb;
       break;
     case GC_type::POINTER:
+      nb = buffer_to_int64( buffer, &i64, buffer_dim-nbyte );
+      m_data_type = GC_type::POINTER;
+      m_data.p = reinterpret_cast<pointer_type>(i64);
+      buffer += nb; nbyte += nb;
       break;
     case GC_type::STRING:
       nb = buffer_to_int32( buffer, &i32, buffer_dim-nbyte );
@@ -454,6 +459,15 @@ namespace GC_namespace {
       buffer += nb; nbyte += nb;
       break;
     case GC_type::VEC_POINTER:
+      nb = buffer_to_int32( buffer, &i32, buffer_dim-nbyte );
+      buffer += nb; nbyte += nb;
+      check_count( i32, 8, buffer_dim-nbyte );
+      allocate_vec_pointer(i32);
+      for ( auto & p : *m_data.v_p ) {
+        nb = buffer_to_int64( buffer, &i64, buffer_dim-nbyte );
+        p  = reinterpret_cast<pointer_type>(i64);
+        buffer += nb; nbyte += nb;
+      }
       break;
     case GC_type::VEC_BOOL:
       nb = buffer_to_int32( buffer, &i32, buffer_dim-nbyte );
-- 
2.43.0


From 1933f73ec7c22d8b9826306641298f598a0a3989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:07 +0000
Subject: [PATCH 035/106] fix: the last row of a table without the final end of
 line is read twice

---
 src/GenericContainerSupport.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/GenericContainerSupport.cc b/src/GenericContainerSupport.cc
index 9b51fdc..44c8fa1 100755
--- a/src/GenericContainerSupport.cc
+++ b/src/GenericContainerSupport.cc
@@ -92,8 +92,7 @@ namespace GC_namespace {
   ) {
     unsigned nl = 0;
     do {
-      if ( stream.fail() ) return 0;
-      getline( stream, line );
+      if ( !getline( stream, line ) ) { line.clear(); return 0; }
       ++nl;
     } while ( line.find_first_of(commentchars) != string_type::npos ); // ????????????
     return nl;
@@ -110,8 +109,7 @@ namespace GC_namespace {
     unsigned nl      = 0;
     bool     comment = true;
     while ( comment ) {
-      if ( stream.fail() ) return 0;
-      getline( stream, line );
+      if ( !getline( stream, line ) ) { line.clear(); return 0; }
       comment = line.empty() ||
                 line.find_first_of(commentchars) != string_type::npos;
       if ( ptr_pars != nullptr && comment && line.length() > 2 && line[1] == '!' ) {
-- 
2.43.0


From e4fd30ce86459ada1bc9a80f529922f1bf678e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:07 +0000
Subject: [PATCH 036/106] fix: read_formatted_data appends to the columns of a
 table read before

---
 src/GenericContainerSupport.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GenericContainerSupport.cc b/src/GenericContainerSupport.cc
index 44c8fa1..68ffa73 100755
--- a/src/GenericContainerSupport.cc
+++ b/src/GenericContainerSupport.cc
@@ -182,6 +182,7 @@ namespace GC_namespace {
     tokenizeString( line, headers, delimiters ); // tokenize line
     unsigned const ncol { static_cast<unsigned>(headers.size()) };
 
+    (*this)["data"].clear(); // do not append to data previously read
     vector_type & data { (*this)["data"].set_vector(ncol) };
     for ( unsigned icol{0}; icol < ncol; ++icol ) data[icol].set_vec_real();
 
@@ -232,6 +233,7 @@ namespace GC_namespace {
     vector<vec_real_type*> pcolumns(ncol);
 
     GenericContainer & data = (*this)["data"];
+    data.clear(); // do not append to data previously read
     for ( unsigned icol = 0; icol < ncol; ++icol ) {
       GenericContainer & ICOL = data[headers[icol]];
       ICOL.set_vec_real();
-- 
2.43.0


From 807658769ce5e630319dc04503e8394ea70199ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:07 +0000
Subject: [PATCH 037/106] fix: write_table reads out of bounds with missing
 columns or headers

---
 src/GenericContainerTables.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/GenericContainerTables.cc b/src/GenericContainerTables.cc
index 24a178e..05fc458 100755
--- a/src/GenericContainerTables.cc
+++ b/src/GenericContainerTables.cc
@@ -39,6 +39,8 @@ namespace GC_namespace {
   ) {
 
     auto const ncol{ static_cast<unsigned>(headers.size()) };
+    if ( ncol == 0 ) return;
+    GC_ASSERT( data.size() >= ncol, "write_table, found " << data.size() << " columns of data for " << ncol << " headers" );
     auto const nrow{ (data[0].get_num_elements()) };
 
     stream << headers[0];
@@ -65,6 +67,9 @@ namespace GC_namespace {
     auto const ncol{ (data.num_cols()) };
     auto const nrow{ (data.num_rows()) };
 
+    if ( ncol == 0 ) return;
+    GC_ASSERT( headers.size() >= ncol, "write_table, found " << headers.size() << " headers for " << ncol << " columns" );
+
     stream << headers[0];
     for ( unsigned icol{1}; icol < ncol; ++icol )
       stream << delimiter << headers[icol];
@@ -86,9 +91,9 @@ namespace GC_namespace {
   ) {
 
     auto const ncol{ static_cast<unsigned>(headers.size()) };
-    auto const nrow{ (data[0].get_num_elements()) };
-
     if ( ncol == 0 ) return;
+    GC_ASSERT( data.size() >= ncol, "write_table, found " << data.size() << " columns of data for " << ncol << " headers" );
+    auto const nrow{ (data[0].get_num_elements()) };
 
     // calcolo lunghezza massima stringhe headers
     unsigned ml { 0 };
@@ -127,6 +132,7 @@ namespace GC_namespace {
     auto const nrow{ (data.num_rows()) };
 
     if ( ncol == 0 ) return;
+    GC_ASSERT( headers.size() >= ncol, "write_table, found " << headers.size() << " headers for " << ncol << " columns" );
 
     // calcolo lunghezza massima stringhe headers
     unsigned ml { 0 };
-- 
2.43.0


From 219ef32c5c8ebf0c916c9810d01b0ea3253f37a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:42 +0000
Subject: [PATCH 038/106] fix: GC_delete leaks the container and leaves it
 selected

---
 src/GenericContainerInterface_C.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/GenericContainerInterface_C.cc b/src/GenericContainerInterface_C.cc
index bf24c5a..14f817b 100755
--- a/src/GenericContainerInterface_C.cc
+++ b/src/GenericContainerInterface_C.cc
@@ -242,7 +242,12 @@ GC_mem_ptr( char const id[] ) {
 
 int
 GC_delete( char const id[] ) {
-  gc_explorer.erase(id);
+  auto const pos{ gc_explorer.find(id) };
+  if ( pos != gc_explorer.end() ) {
+    if ( gc_active == pos->second ) gc_active = nullptr;
+    delete pos->second;
+    gc_explorer.erase(pos);
+  }
   return GENERIC_CONTAINER_OK;
 }
 
-- 
2.43.0


From bd15ad29c2bf0b4d8a0ae4981d8f468f9f41fc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:42 +0000
Subject: [PATCH 039/106] fix: GC_pop_head removes the root and makes the
 container unusable

---
 src/GenericContainerInterface_C.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GenericContainerInterface_C.cc b/src/GenericContainerInterface_C.cc
index 14f817b..a77f43e 100755
--- a/src/GenericContainerInterface_C.cc
+++ b/src/GenericContainerInterface_C.cc
@@ -134,7 +134,7 @@ namespace GC_namespace {
 
   int
   GenericContainerExplorer::pop() {
-    if ( head.empty() ) return GENERIC_CONTAINER_NO_DATA;
+    if ( head.size() <= 1 ) return GENERIC_CONTAINER_NO_DATA; // the root cannot be popped
     head.pop_back();
     return GENERIC_CONTAINER_OK;
   }
-- 
2.43.0


From 965620904429f8b57b8badf6794aa82d1815b87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:42 +0000
Subject: [PATCH 040/106] fix: GC_get_next_key uses a null or dangling map

---
 src/GenericContainerInterface_C.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/GenericContainerInterface_C.cc b/src/GenericContainerInterface_C.cc
index a77f43e..c203a72 100755
--- a/src/GenericContainerInterface_C.cc
+++ b/src/GenericContainerInterface_C.cc
@@ -59,8 +59,8 @@ namespace GC_namespace {
     GenericContainer         data;
     deque<GenericContainer*> head;
 
-    map_type         * ptr_map{nullptr};
-    map_type::iterator map_iterator;
+    vec_string_type map_keys; // copied, the map may be changed or destroyed while the keys are visited
+    size_t          map_pos{0};
 
   public:
 
@@ -169,15 +169,15 @@ namespace GC_namespace {
   GenericContainerExplorer::init_map_key() {
     int const ok{ check( GC_type::MAP ) };
     if ( ok == GENERIC_CONTAINER_OK ) {
-      ptr_map = &head.back()->get_map();
-      map_iterator = ptr_map->begin();
+      head.back()->get_keys( map_keys );
+      map_pos = 0;
     }
     return ok;
   }
 
   string_view
   GenericContainerExplorer::next_map_key() {
-    if ( map_iterator != ptr_map->end() ) return map_iterator++->first;
+    if ( map_pos < map_keys.size() ) return map_keys[map_pos++];
     return "";
   }
 
-- 
2.43.0


From c81177e59c357fd32aab98283603a503aff43696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:42 +0000
Subject: [PATCH 041/106] fix: GC_push_vector_position resizes the vector when
 the position is out of range

---
 src/GenericContainerInterface_C.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/GenericContainerInterface_C.cc b/src/GenericContainerInterface_C.cc
index c203a72..b4031ed 100755
--- a/src/GenericContainerInterface_C.cc
+++ b/src/GenericContainerInterface_C.cc
@@ -149,6 +149,7 @@ namespace GC_namespace {
   GenericContainerExplorer::push_vector_position( unsigned const pos ) {
     int const ok{ check( GC_type::VECTOR ) };
     if ( ok == GENERIC_CONTAINER_OK  ) {
+      if ( pos >= head.back()->get_num_elements() ) return GENERIC_CONTAINER_NO_DATA;
       GenericContainer * gc = &((*head.back())[pos]);
       head.push_back( gc );
     }
-- 
2.43.0


From 9029d3539cd3004f4f3462397c32e0f7e0c6ef32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:42 +0000
Subject: [PATCH 042/106] fix: GC_set_empty_vector_of_*, GC_set_empty_vector
 and GC_set_map keep the old elements

---
 src/GenericContainerInterface_C.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/GenericContainerInterface_C.cc b/src/GenericContainerInterface_C.cc
index b4031ed..169abe4 100755
--- a/src/GenericContainerInterface_C.cc
+++ b/src/GenericContainerInterface_C.cc
@@ -592,35 +592,35 @@ GC_get_complex_imag_at_coor( int const i, int const j ) {
 int
 GC_set_empty_vector_of_bool() {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  GC_TRY( gc_active->top()->set_vec_bool() );
+  GC_TRY( gc_active->top()->set_vec_bool().clear() );
   return GENERIC_CONTAINER_OK;
 }
 
 int
 GC_set_empty_vector_of_int() {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  GC_TRY( gc_active->top()->set_vec_int() );
+  GC_TRY( gc_active->top()->set_vec_int().clear() );
   return GENERIC_CONTAINER_OK;
 }
 
 int
 GC_set_empty_vector_of_real() {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  GC_TRY( gc_active->top()->set_vec_real() );
+  GC_TRY( gc_active->top()->set_vec_real().clear() );
   return GENERIC_CONTAINER_OK;
 }
 
 int
 GC_set_empty_vector_of_complex() {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  GC_TRY( gc_active->top()->set_vec_complex() );
+  GC_TRY( gc_active->top()->set_vec_complex().clear() );
   return GENERIC_CONTAINER_OK;
 }
 
 int
 GC_set_empty_vector_of_string() {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  GC_TRY( gc_active->top()->set_vec_string() );
+  GC_TRY( gc_active->top()->set_vec_string().clear() );
   return GENERIC_CONTAINER_OK;
 }
 
@@ -680,7 +680,7 @@ GC_set_vector( int const nelem ) {
 int
 GC_set_empty_vector() {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  GC_TRY( gc_active->top()->set_vector() );
+  GC_TRY( gc_active->top()->set_vector().clear() );
   return GENERIC_CONTAINER_OK;
 }
 
@@ -713,7 +713,7 @@ GC_push_vector_position( int const pos ) {
 int
 GC_set_map() {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  GC_TRY( gc_active->top()->set_map() );
+  GC_TRY( gc_active->top()->set_map().clear() );
   return GENERIC_CONTAINER_OK;
 }
 
-- 
2.43.0


From bd81e693601a0f43373f31699c0c579532fcfaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:42 +0000
Subject: [PATCH 043/106] fix: GC_set_vector_of_* and GC_set_vector accept
 negative sizes and let exceptions escape

---
 src/GenericContainerInterface_C.cc | 47 +++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/src/GenericContainerInterface_C.cc b/src/GenericContainerInterface_C.cc
index 169abe4..eb79dfc 100755
--- a/src/GenericContainerInterface_C.cc
+++ b/src/GenericContainerInterface_C.cc
@@ -191,8 +191,8 @@ namespace GC_namespace {
 
 }
 
-#define GC_TRY(A)                               \
-try { A; }                                      \
+#define GC_TRY(...)                             \
+try { __VA_ARGS__; }                            \
 catch(std::runtime_error & err) {               \
   std::cerr << "Error: " << err.what() << "\n"; \
   return GENERIC_CONTAINER_NO_DATA;             \
@@ -629,8 +629,12 @@ GC_set_empty_vector_of_string() {
 int
 GC_set_vector_of_bool( int const * a, int const nelem ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  vec_bool_type & v{ gc_active->top()->set_vec_bool( nelem ) };
-  for ( unsigned i{0}; i < static_cast<unsigned>(nelem); ++i ) v[i] = a[i] != 0;
+  if ( nelem < 0 ) return GENERIC_CONTAINER_NO_DATA;
+  GC_TRY(
+    vec_bool_type & v{ gc_active->top()->set_vec_bool( nelem ) };
+    v.resize(nelem);
+    for ( unsigned i{0}; i < static_cast<unsigned>(nelem); ++i ) v[i] = a[i] != 0;
+  );
   return GENERIC_CONTAINER_OK;
 }
 
@@ -639,32 +643,48 @@ GC_set_vector_of_bool( int const * a, int const nelem ) {
 int
 GC_set_vector_of_int( int const * a, int const nelem ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  vec_int_type & v{ gc_active->top()->set_vec_int( nelem ) };
-  std::copy_n( a, nelem, v.begin() );
+  if ( nelem < 0 ) return GENERIC_CONTAINER_NO_DATA;
+  GC_TRY(
+    vec_int_type & v{ gc_active->top()->set_vec_int( nelem ) };
+    v.resize(nelem);
+    std::copy_n( a, nelem, v.begin() );
+  );
   return GENERIC_CONTAINER_OK;
 }
 
 int
 GC_set_vector_of_real( double const * a, int const nelem ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  vec_real_type & v{ gc_active->top()->set_vec_real(nelem) };
-  std::copy_n( a, nelem, v.begin() );
+  if ( nelem < 0 ) return GENERIC_CONTAINER_NO_DATA;
+  GC_TRY(
+    vec_real_type & v{ gc_active->top()->set_vec_real(nelem) };
+    v.resize(nelem);
+    std::copy_n( a, nelem, v.begin() );
+  );
   return GENERIC_CONTAINER_OK;
 }
 
 int
 GC_set_vector_of_complex( double const * re, double const * im, int const nelem ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  vec_complex_type & v{gc_active->top()->set_vec_complex(nelem)};
-  for ( unsigned i = 0; i < static_cast<unsigned>(nelem); ++i ) v[i] = complex_type(re[i],im[i]);
+  if ( nelem < 0 ) return GENERIC_CONTAINER_NO_DATA;
+  GC_TRY(
+    vec_complex_type & v{gc_active->top()->set_vec_complex(nelem)};
+    v.resize(nelem);
+    for ( unsigned i = 0; i < static_cast<unsigned>(nelem); ++i ) v[i] = complex_type(re[i],im[i]);
+  );
   return GENERIC_CONTAINER_OK;
 }
 
 int
 GC_set_vector_of_string( char const ** a, int const nelem ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  vec_string_type & v{ gc_active->top()->set_vec_string(nelem) };
-  for ( unsigned i = 0; i < static_cast<unsigned>(nelem); ++i ) v[i] = a[i];
+  if ( nelem < 0 ) return GENERIC_CONTAINER_NO_DATA;
+  GC_TRY(
+    vec_string_type & v{ gc_active->top()->set_vec_string(nelem) };
+    v.resize(nelem);
+    for ( unsigned i = 0; i < static_cast<unsigned>(nelem); ++i ) v[i] = a[i];
+  );
   return GENERIC_CONTAINER_OK;
 }
 
@@ -673,7 +693,8 @@ GC_set_vector_of_string( char const ** a, int const nelem ) {
 int
 GC_set_vector( int const nelem ) {
   if ( gc_active == nullptr ) return GENERIC_CONTAINER_BAD_HEAD;
-  GC_TRY( gc_active->top()->set_vector(nelem) );
+  if ( nelem < 0 ) return GENERIC_CONTAINER_NO_DATA;
+  GC_TRY( gc_active->top()->set_vector(nelem).resize(nelem) );
   return GENERIC_CONTAINER_OK;
 }
 
-- 
2.43.0


From 6d00642e39874e8f4f11dad5706d4bafcd559e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:21 +0000
Subject: [PATCH 044/106] fix: GC_get_* let C++ exceptions escape into C and
 resize what they read

---
 src/GenericContainerInterface_C.cc | 110 +++++++++++++++++++++--------
 1 file changed, 80 insertions(+), 30 deletions(-)

diff --git a/src/GenericContainerInterface_C.cc b/src/GenericContainerInterface_C.cc
index eb79dfc..40c75e0 100755
--- a/src/GenericContainerInterface_C.cc
+++ b/src/GenericContainerInterface_C.cc
@@ -208,6 +208,18 @@ typedef std::pair<string_type,GenericContainerExplorer*> MAP_DATA;
 static MAP                        gc_explorer;
 static GenericContainerExplorer * gc_active = nullptr;
 
+static
+bool
+pos_in_range( int const pos )
+{ return pos >= 0 && static_cast<unsigned>(pos) < gc_active->top()->get_num_elements(); }
+
+static
+bool
+coor_in_range( int const i, int const j ) {
+  return i >= 0 && static_cast<unsigned>(i) < gc_active->top()->num_rows() &&
+         j >= 0 && static_cast<unsigned>(j) < gc_active->top()->num_cols();
+}
+
 extern "C" {
 
 int
@@ -404,31 +416,39 @@ GC_set_string( char const a[] ) {
 //..............................................................................
 
 int
-GC_get_bool() {
+GC_get_bool() try {
   if ( gc_active == nullptr ) return 0;
   return gc_active->top()->get_bool() ? 1 : 0;
+} catch (...) {
+  return 0;
 }
 
 int
-GC_get_int() {
+GC_get_int() try {
   if ( gc_active == nullptr ) return 0;
   return gc_active->top()->get_int();
+} catch (...) {
+  return 0;
 }
 
 long
-GC_get_long() {
+GC_get_long() try {
   if ( gc_active == nullptr ) return 0;
   return gc_active->top()->get_long();
+} catch (...) {
+  return 0;
 }
 
 double
-GC_get_real( ) {
+GC_get_real( ) try {
   if ( gc_active == nullptr ) return 0;
   return gc_active->top()->get_real();
+} catch (...) {
+  return 0;
 }
 
 c_complex_type
-GC_get_complex( ) {
+GC_get_complex( ) try {
   c_complex_type tmp{ 0, 0 };
   if ( gc_active != nullptr ) {
     complex_type const t = gc_active->top()->get_complex();
@@ -436,24 +456,32 @@ GC_get_complex( ) {
     tmp.imag = t.imag();
   }
   return tmp;
+} catch (...) {
+  return c_complex_type{ 0, 0 };
 }
 
 double
-GC_get_complex_re( ) {
+GC_get_complex_re( ) try {
   if ( gc_active != nullptr ) return gc_active->top()->get_complex().real();
   return 0;
+} catch (...) {
+  return 0;
 }
 
 double
-GC_get_complex_im( ) {
+GC_get_complex_im( ) try {
   if ( gc_active != nullptr ) return gc_active->top()->get_complex().imag();
   return 0;
+} catch (...) {
+  return 0;
 }
 
 char const *
-GC_get_string( ) {
+GC_get_string( ) try {
   if ( gc_active == nullptr ) return nullptr;
   return gc_active->top()->get_string().data();
+} catch (...) {
+  return nullptr;
 }
 
 //..............................................................................
@@ -503,88 +531,110 @@ GC_push_string( char const a[] ) {
 //..............................................................................
 
 int
-GC_get_bool_at_pos( int const pos ) {
-  if ( gc_active == nullptr ) return 0;
+GC_get_bool_at_pos( int const pos ) try {
+  if ( gc_active == nullptr || !pos_in_range(pos) ) return 0;
   bool const val{ gc_active->top()->get_bool_at(pos) };
   return val ? 1 : 0;
+} catch (...) {
+  return 0;
 }
 
 int
-GC_get_int_at_pos( int const pos ) {
-  if ( gc_active == nullptr ) return 0;
+GC_get_int_at_pos( int const pos ) try {
+  if ( gc_active == nullptr || !pos_in_range(pos) ) return 0;
   return gc_active->top()->get_int_at( static_cast<unsigned>(pos) );
+} catch (...) {
+  return 0;
 }
 
 double
-GC_get_real_at_pos( int const pos ) {
-  if ( gc_active == nullptr ) return 0;
+GC_get_real_at_pos( int const pos ) try {
+  if ( gc_active == nullptr || !pos_in_range(pos) ) return 0;
   return gc_active->top()->get_number_at( static_cast<unsigned>(pos) );
+} catch (...) {
+  return 0;
 }
 
 c_complex_type
-GC_get_complex_at_pos( int const pos ) {
+GC_get_complex_at_pos( int const pos ) try {
   c_complex_type tmp;
   tmp.real = tmp.imag = 0;
-  if ( gc_active != nullptr ) gc_active->top()->get_complex_number_at( static_cast<unsigned>(pos), tmp.real, tmp.imag );
+  if ( gc_active != nullptr && pos_in_range(pos) ) gc_active->top()->get_complex_number_at( static_cast<unsigned>(pos), tmp.real, tmp.imag );
   return tmp;
+} catch (...) {
+  return c_complex_type{ 0, 0 };
 }
 
 double
-GC_get_complex_real_at_pos( int const pos ) {
+GC_get_complex_real_at_pos( int const pos ) try {
   real_type re = 0, im = 0;
-  if ( gc_active != nullptr ) gc_active->top()->get_complex_number_at( static_cast<unsigned>(pos), re, im );
+  if ( gc_active != nullptr && pos_in_range(pos) ) gc_active->top()->get_complex_number_at( static_cast<unsigned>(pos), re, im );
   return re;
+} catch (...) {
+  return 0;
 }
 
 double
-GC_get_complex_imag_at_pos( int const pos ) {
+GC_get_complex_imag_at_pos( int const pos ) try {
   real_type re = 0, im = 0;
-  if ( gc_active != nullptr ) gc_active->top()->get_complex_number_at( static_cast<unsigned>(pos), re, im );
+  if ( gc_active != nullptr && pos_in_range(pos) ) gc_active->top()->get_complex_number_at( static_cast<unsigned>(pos), re, im );
   return im;
+} catch (...) {
+  return 0;
 }
 
 char const *
-GC_get_string_at_pos( int const pos ) {
-  if ( gc_active == nullptr ) return nullptr;
+GC_get_string_at_pos( int const pos ) try {
+  if ( gc_active == nullptr || !pos_in_range(pos) ) return nullptr;
   return gc_active->top()->get_string_at(pos).data();
+} catch (...) {
+  return nullptr;
 }
 
 //..............................................................................
 
 double
-GC_get_real_at_coor( int const i, int const j ) {
-  if ( gc_active == nullptr ) return 0;
+GC_get_real_at_coor( int const i, int const j ) try {
+  if ( gc_active == nullptr || !coor_in_range(i,j) ) return 0;
   return gc_active->top()->get_real_at( static_cast<unsigned>(i), static_cast<unsigned>(j) );
+} catch (...) {
+  return 0;
 }
 
 c_complex_type
-GC_get_complex_at_coor( int const i, int const j ) {
+GC_get_complex_at_coor( int const i, int const j ) try {
   c_complex_type tmp;
   tmp.real = tmp.imag = 0;
-  if ( gc_active != nullptr ) {
+  if ( gc_active != nullptr && coor_in_range(i,j) ) {
     complex_type const res{ gc_active->top()->get_complex_at( static_cast<unsigned>(i), static_cast<unsigned>(j) ) };
     tmp.real = res.real();
     tmp.imag = res.imag();
   }
   return tmp;
+} catch (...) {
+  return c_complex_type{ 0, 0 };
 }
 
 double
-GC_get_complex_real_at_coor( int const i, int const j ) {
-  if ( gc_active != nullptr ) {
+GC_get_complex_real_at_coor( int const i, int const j ) try {
+  if ( gc_active != nullptr && coor_in_range(i,j) ) {
     complex_type const res{ gc_active->top()->get_complex_at( static_cast<unsigned>(i), static_cast<unsigned>(j) ) };
     return res.real();
   }
   return 0;
+} catch (...) {
+  return 0;
 }
 
 double
-GC_get_complex_imag_at_coor( int const i, int const j ) {
-  if ( gc_active != nullptr ) {
+GC_get_complex_imag_at_coor( int const i, int const j ) try {
+  if ( gc_active != nullptr && coor_in_range(i,j) ) {
     complex_type const res{ gc_active->top()->get_complex_at( static_cast<unsigned>(i), static_cast<unsigned>(j) ) };
     return res.imag();
   }
   return 0;
+} catch (...) {
+  return 0;
 }
 
 //..............................................................................
-- 
2.43.0


From 681094e69d1ea9f6e7f1e0db0c285069db710ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:52 +0000
Subject: [PATCH 045/106] fix: strings with control characters are written as
 invalid JSON and YAML

---
 src/GenericContainer.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index a18604a..babddd9 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -96,10 +96,13 @@ namespace GC_namespace {
       else if ( c == '\n' ) { stream << "\\n"; }
       else if ( c == '\r' ) { stream << "\\r"; }
       else if ( c == '\t' ) { stream << "\\t"; }
-      else if ( c == '\v' ) { stream << "\\v"; }
       else if ( c == '\b' ) { stream << "\\b"; }
-      else if ( c == '\a' ) { stream << "\\a"; }
       else if ( c == '\\' ) { stream << "\\\\"; }
+      else if ( static_cast<unsigned char>(c) < 0x20 || c == 0x7F ) {
+        // control characters, neither JSON nor YAML accept them unescaped (nor JSON accepts \v and \a)
+        static char const hex[]{"0123456789abcdef"};
+        stream << "\\u00" << hex[(c>>4)&0xF] << hex[c&0xF];
+      }
       else                    stream << c;
     }
     stream << '"';
-- 
2.43.0


From d9d9ca9ff4b7c2d6c1ccdaecc69f6ece4ad34046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:52 +0000
Subject: [PATCH 046/106] fix: to_json does not escape the keys of maps

---
 src_json_interface/to_json.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src_json_interface/to_json.cc b/src_json_interface/to_json.cc
index c2ed0bf..d79758f 100755
--- a/src_json_interface/to_json.cc
+++ b/src_json_interface/to_json.cc
@@ -138,7 +138,9 @@ namespace GC_namespace {
           stream << '\n' << prefix;
           char const * pre{"{\n"};
           for ( auto const & im : m ) {
-            stream << pre << prefix << indent << '"' << im.first <<  '"' << ": ";
+            stream << pre << prefix << indent;
+            string_escape( stream, im.first );
+            stream << ": ";
             im.second.to_json(stream,prefix1);
             pre = ",\n";
           }
-- 
2.43.0


From 005b2e27d1dd2e7fdae3db6665c6c42fc05701cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:52 +0000
Subject: [PATCH 047/106] fix: to_json writes malformed JSON for empty vectors,
 maps and matrices

---
 src_json_interface/to_json.cc | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src_json_interface/to_json.cc b/src_json_interface/to_json.cc
index d79758f..baf891c 100755
--- a/src_json_interface/to_json.cc
+++ b/src_json_interface/to_json.cc
@@ -76,7 +76,8 @@ namespace GC_namespace {
         break;
       case GC_type::VEC_BOOL: {
         vec_bool_type const & v{*m_data.v_b};
-        string_view pre{"[ "};
+        string_view pre{" "};
+        stream << '[';
         for ( bool vi : v ) {
           stream << pre << (vi?"true":"false");
           pre = ", ";
@@ -85,7 +86,8 @@ namespace GC_namespace {
         break;
       }
       #define GC_PRINT_VECTOR(VDATA)              \
-      string_view pre = "[ ";                     \
+      string_view pre = " ";                      \
+        stream << '[';                            \
         for ( auto const & vi : v )               \
           { stream << pre << VDATA; pre = ", "; } \
         stream << " ]"
@@ -112,7 +114,8 @@ namespace GC_namespace {
       }
       case GC_type::VEC_STRING: {
         vec_string_type const & v{*m_data.v_s};
-        char const * pre = "[ ";
+        char const * pre = " ";
+        stream << '[';
         for ( auto const & vi : v )
           { stream << pre; string_escape(stream,vi); pre = ", "; }
         stream << " ]";
@@ -129,6 +132,8 @@ namespace GC_namespace {
             pre = ",\n";
           }
           stream << '\n' << prefix << "]";
+        } else {
+          stream << "[ ]";
         }
         break;
       }
@@ -145,21 +150,25 @@ namespace GC_namespace {
             pre = ",\n";
           }
           stream << '\n' << prefix << "}";
+        } else {
+          stream << "{ }";
         }
         break;
       }
       #define GC_PRINT_MATRIX(MDATA)                 \
         unsigned NR{M.num_rows()};                   \
         unsigned NC{M.num_cols()};                   \
-        stream << "[\n";                             \
-        string pre0 = prefix1+"[ ";                  \
+        stream << "[";                               \
+        string pre0 = "\n"+prefix1;                  \
         for ( unsigned j{0}; j < NC; ++j ) {         \
-          string pre{pre0};                          \
+          string_view pre{" "};                      \
+          stream << pre0 << '[';                     \
           for ( unsigned i{0}; i < NR; ++i )         \
             { stream << pre << MDATA; pre = ", "; }  \
-          pre0 = " ],\n"+prefix1+"[ ";               \
+          stream << " ]";                            \
+          pre0 = ",\n"+prefix1;                      \
         }                                            \
-        stream << " ]\n" << prefix << "]"
+        stream << '\n' << prefix << "]"
 
       case GC_type::MAT_INTEGER: {
         mat_int_type const & M{*m_data.m_i};
@@ -186,7 +195,8 @@ namespace GC_namespace {
         break;
       case GC_type::VEC_POINTER: {
         vec_pointer_type const & V = this->get_vec_pointer("");
-        char const * pre{"[ "};
+        char const * pre{" "};
+        stream << '[';
         for ( auto const & vi : V ) {
           stream << pre << std::hex << std::showbase << reinterpret_cast<uintptr_t>(vi);
           pre = ", ";
-- 
2.43.0


From b54c487ef81a122be9a6385815db011e15a8991b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:52 +0000
Subject: [PATCH 048/106] fix: to_json writes matrices of complex with single
 quotes

---
 src_json_interface/to_json.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_json_interface/to_json.cc b/src_json_interface/to_json.cc
index baf891c..2b2fadb 100755
--- a/src_json_interface/to_json.cc
+++ b/src_json_interface/to_json.cc
@@ -187,7 +187,7 @@ namespace GC_namespace {
       }
       case GC_type::MAT_COMPLEX: {
         mat_complex_type const & M{*m_data.m_c};
-        GC_PRINT_MATRIX("'" << to_string(M(i,j)) << "'");
+        GC_PRINT_MATRIX('"' << to_string(M(i,j)) << '"');
         break;
       }
       case GC_type::POINTER:
-- 
2.43.0


From 076b37ffa3955b2e7dfc400896e8191feb4fa3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:18 +0000
Subject: [PATCH 049/106] fix: to_json writes pointers as invalid JSON and
 leaves the stream in hexadecimal mode

---
 src_json_interface/to_json.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src_json_interface/to_json.cc b/src_json_interface/to_json.cc
index 2b2fadb..e8c5aea 100755
--- a/src_json_interface/to_json.cc
+++ b/src_json_interface/to_json.cc
@@ -191,14 +191,19 @@ namespace GC_namespace {
         break;
       }
       case GC_type::POINTER:
-        stream << std::hex << std::showbase << reinterpret_cast<uintptr_t>(m_data.p);
+        { auto const flags{ stream.flags() };
+          stream << '"' << std::hex << std::showbase << reinterpret_cast<uintptr_t>(m_data.p) << '"';
+          stream.flags( flags );
+        }
         break;
       case GC_type::VEC_POINTER: {
         vec_pointer_type const & V = this->get_vec_pointer("");
         char const * pre{" "};
         stream << '[';
         for ( auto const & vi : V ) {
-          stream << pre << std::hex << std::showbase << reinterpret_cast<uintptr_t>(vi);
+          auto const flags{ stream.flags() };
+          stream << pre << '"' << std::hex << std::showbase << reinterpret_cast<uintptr_t>(vi) << '"';
+          stream.flags( flags );
           pre = ", ";
         }
         stream << " ]";
-- 
2.43.0


From f5d059087329d141721f3acff6b443a656a95554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:18 +0000
Subject: [PATCH 050/106] fix: from_json merges the document with the old
 contents of the container

---
 src_json_interface/from_json.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src_json_interface/from_json.cc b/src_json_interface/from_json.cc
index 5c109e8..3c6b919 100644
--- a/src_json_interface/from_json.cc
+++ b/src_json_interface/from_json.cc
@@ -58,6 +58,7 @@ namespace GC_namespace {
     static regex complex_regex(R"(^([+-]?\d+(\.\d+)?)[+-](\d+(\.\d+)?)i$)");
 
     bool ok{true};
+    gc.clear(); // do not merge with the old contents
     if ( value.IsNull() ) {
       gc.clear();
     } else if ( value.IsBool() ) {
-- 
2.43.0


From 102239e14f7c713b95de838c972c8cccb1e108c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:18 +0000
Subject: [PATCH 051/106] fix: from_json wraps integers greater than the
 maximum of int_type and long_type

---
 src_json_interface/from_json.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src_json_interface/from_json.cc b/src_json_interface/from_json.cc
index 3c6b919..dfde230 100644
--- a/src_json_interface/from_json.cc
+++ b/src_json_interface/from_json.cc
@@ -65,12 +65,10 @@ namespace GC_namespace {
       gc = value.GetBool();
     } else if ( value.IsInt() ) {
       gc = value.GetInt();
-    } else if ( value.IsUint() ) {
-      gc = value.GetUint();
     } else if ( value.IsInt64() ) {
       gc = value.GetInt64();
     } else if ( value.IsUint64() ) {
-      gc = value.GetUint64();
+      gc = value.GetDouble(); // out of the range of long_type
     } else if ( value.IsDouble() ) {
       gc = value.GetDouble();
     } else if ( value.IsString() ) {
-- 
2.43.0


From e2cada82fce4b78eae455fb95407dac64d850074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:18 +0000
Subject: [PATCH 052/106] fix: from_json cuts strings and keys at the first NUL

---
 src_json_interface/from_json.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src_json_interface/from_json.cc b/src_json_interface/from_json.cc
index dfde230..f0d7eb4 100644
--- a/src_json_interface/from_json.cc
+++ b/src_json_interface/from_json.cc
@@ -72,7 +72,7 @@ namespace GC_namespace {
     } else if ( value.IsDouble() ) {
       gc = value.GetDouble();
     } else if ( value.IsString() ) {
-      gc = value.GetString();
+      gc.set_string( string_view( value.GetString(), value.GetStringLength() ) );
     } else if ( value.IsArray() ) {
       vector_type & V{ gc.set_vector( value.Size() ) };
       for ( rapidjson::SizeType i{0}; i < value.Size(); ++i )
@@ -81,7 +81,7 @@ namespace GC_namespace {
       map_type & M{ gc.set_map() };
       map<std::string, GenericContainer> object;
       for ( auto it = value.MemberBegin(); ok && it != value.MemberEnd(); ++it ) {
-        GenericContainer & gc1 = M[it->name.GetString()];
+        GenericContainer & gc1 = M[string( it->name.GetString(), it->name.GetStringLength() )];
         ok = decode_json(gc1,it->value);
       }
     } else {
-- 
2.43.0


From 8a1e0512e126f103fee1b334f6c9f6179ca867ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:18 +0000
Subject: [PATCH 053/106] fix: from_json reads real numbers with an error of
 some units in the last place

---
 src_json_interface/from_json.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_json_interface/from_json.cc b/src_json_interface/from_json.cc
index f0d7eb4..43c33a1 100644
--- a/src_json_interface/from_json.cc
+++ b/src_json_interface/from_json.cc
@@ -100,7 +100,7 @@ namespace GC_namespace {
     rapidjson::Document document;
 
     // Parse del file
-    document.ParseStream(isw);
+    document.ParseStream<rapidjson::kParseFullPrecisionFlag>(isw);
 
     // Controllare eventuali errori di parsing
     if (document.HasParseError()) {
-- 
2.43.0


From 4c96904d3f64c41e382cb8743b0c841fcb5aad59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:18 +0000
Subject: [PATCH 054/106] fix: to_yaml leaves the stream in hexadecimal mode
 after a pointer

---
 src_yaml_interface/to_yaml.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src_yaml_interface/to_yaml.cc b/src_yaml_interface/to_yaml.cc
index 4e5dfcb..9526027 100755
--- a/src_yaml_interface/to_yaml.cc
+++ b/src_yaml_interface/to_yaml.cc
@@ -189,13 +189,18 @@ namespace GC_namespace {
         break;
       }
       case GC_type::POINTER:
-        stream << std::hex << std::showbase << reinterpret_cast<uintptr_t>(m_data.p) << '\n';
+        { auto const flags{ stream.flags() };
+          stream << std::hex << std::showbase << reinterpret_cast<uintptr_t>(m_data.p) << '\n';
+          stream.flags( flags );
+        }
         break;
       case GC_type::VEC_POINTER: {
         vec_pointer_type const & V = this->get_vec_pointer("");
         stream << '\n';
         for ( auto const & vi : V ) {
+          auto const flags{ stream.flags() };
           stream << prefix << "- " << std::hex << std::showbase << reinterpret_cast<uintptr_t>(vi) << '\n';
+          stream.flags( flags );
         }
         break;
       }
-- 
2.43.0


From 3e694486b69c57bf74e9e229a8cb2d7d796dca58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:18 +0000
Subject: [PATCH 055/106] fix: to_yaml does not quote the keys that YAML reads
 as something else

---
 src_yaml_interface/to_yaml.cc | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src_yaml_interface/to_yaml.cc b/src_yaml_interface/to_yaml.cc
index 9526027..5eb1a16 100755
--- a/src_yaml_interface/to_yaml.cc
+++ b/src_yaml_interface/to_yaml.cc
@@ -45,6 +45,21 @@ namespace GC_namespace {
   //         |_____|___/
   */
 
+  // true if the key read back without quotes is the same string
+  static
+  bool
+  plain_key( string const & key ) {
+    static char const * const reserved[]{
+      "null", "Null", "NULL", "true", "True", "TRUE", "false", "False", "FALSE",
+      "y", "Y", "yes", "Yes", "YES", "n", "N", "no", "No", "NO", "on", "On", "ON", "off", "Off", "OFF"
+    };
+    for ( auto const & r : reserved ) if ( key == r ) return false;
+    if ( key.empty() || ( key[0] >= '0' && key[0] <= '9' ) ) return false;
+    for ( char const c : key )
+      if ( !( ( c >= 'a' && c <= 'z' ) || ( c >= 'A' && c <= 'Z' ) || ( c >= '0' && c <= '9' ) || c == '_' ) ) return false;
+    return true;
+  }
+
   void
   GenericContainer::to_yaml(
     ostream_type & stream,
@@ -138,7 +153,10 @@ namespace GC_namespace {
           stream << '\n';
           string prefix2{prefix}; prefix2 += "  ";
           for ( auto const & im : m ) {
-            stream << prefix << im.first << ": ";
+            stream << prefix;
+            if ( plain_key( im.first ) ) stream << im.first;
+            else                         string_escape( stream, im.first );
+            stream << ": ";
             im.second.to_yaml(stream,prefix2);
           }
         }
-- 
2.43.0


From 6a7f3e3fb4bc409bb20dee7df5bcf7ccee262812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:18 +0000
Subject: [PATCH 056/106] fix: to_yaml writes malformed YAML for empty vectors
 and matrices, null for empty vectors and maps

---
 src_yaml_interface/to_yaml.cc | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src_yaml_interface/to_yaml.cc b/src_yaml_interface/to_yaml.cc
index 5eb1a16..39522dc 100755
--- a/src_yaml_interface/to_yaml.cc
+++ b/src_yaml_interface/to_yaml.cc
@@ -90,7 +90,8 @@ namespace GC_namespace {
         break;
       case GC_type::VEC_BOOL: {
         vec_bool_type const & v{*m_data.v_b};
-        char const * pre = "[ ";
+        char const * pre = " ";
+        stream << '[';
         for ( bool vi : v ) {
           stream << pre << (vi?"true":"false");
           pre = ", ";
@@ -99,7 +100,8 @@ namespace GC_namespace {
         break;
       }
       #define GC_PRINT_VECTOR                  \
-        char const * pre = "[ ";               \
+        char const * pre = " ";                \
+        stream << '[';                         \
         for ( auto const & vi : v )            \
           { stream << pre << vi; pre = ", "; } \
         stream << " ]\n"
@@ -125,7 +127,8 @@ namespace GC_namespace {
       }
       case GC_type::VEC_STRING: {
         vec_string_type const & v{*m_data.v_s};
-        char const * pre = "[ ";
+        char const * pre = " ";
+        stream << '[';
         for ( auto const & vi : v )
           { stream << pre; string_escape(stream,vi); pre = ", "; }
         stream << " ]\n";
@@ -135,7 +138,7 @@ namespace GC_namespace {
         vector_type const & v{*m_data.v};
         string prefix2{prefix}; prefix2 += "  ";
         if ( v.empty() ) {
-          stream << "null\n";
+          stream << "[ ]\n";
         } else {
           stream << '\n';
           for ( auto const & vi : v ) {
@@ -148,7 +151,7 @@ namespace GC_namespace {
       case GC_type::MAP: {
         map_type const & m{*m_data.m};
         if ( m.empty() ) {
-          stream << "null\n";
+          stream << "{ }\n";
         } else {
           stream << '\n';
           string prefix2{prefix}; prefix2 += "  ";
@@ -165,10 +168,10 @@ namespace GC_namespace {
       #define GC_PRINT_MATRIX                        \
         unsigned NR{M.num_rows()};                   \
         unsigned NC{M.num_cols()};                   \
-        stream << '\n';                              \
+        stream << ( NC == 0 ? "[ ]\n" : "\n" );      \
         for ( unsigned j{0}; j < NC; ++j ) {         \
-          stream << prefix;                          \
-          char const * pre = "- [ ";                 \
+          stream << prefix << "- [";                 \
+          char const * pre = " ";                    \
           for ( unsigned i{0}; i < NR; ++i )         \
             { stream << pre << M(i,j); pre = ", "; } \
           stream << " ]\n";                          \
@@ -214,7 +217,7 @@ namespace GC_namespace {
         break;
       case GC_type::VEC_POINTER: {
         vec_pointer_type const & V = this->get_vec_pointer("");
-        stream << '\n';
+        stream << ( V.empty() ? "[ ]\n" : "\n" );
         for ( auto const & vi : V ) {
           auto const flags{ stream.flags() };
           stream << prefix << "- " << std::hex << std::showbase << reinterpret_cast<uintptr_t>(vi) << '\n';
-- 
2.43.0


From 88afd690d80407e36ab313b1e0c34424270465a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:18 +0000
Subject: [PATCH 057/106] fix: to_yaml splits the complex numbers of vectors
 and matrices at the comma

---
 src_yaml_interface/to_yaml.cc | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src_yaml_interface/to_yaml.cc b/src_yaml_interface/to_yaml.cc
index 39522dc..2d53141 100755
--- a/src_yaml_interface/to_yaml.cc
+++ b/src_yaml_interface/to_yaml.cc
@@ -99,30 +99,30 @@ namespace GC_namespace {
         stream << " ]\n";
         break;
       }
-      #define GC_PRINT_VECTOR                  \
+      #define GC_PRINT_VECTOR(VDATA)           \
         char const * pre = " ";                \
         stream << '[';                         \
         for ( auto const & vi : v )            \
-          { stream << pre << vi; pre = ", "; } \
+          { stream << pre << VDATA; pre = ", "; } \
         stream << " ]\n"
       case GC_type::VEC_INTEGER: {
         vec_int_type const & v{*m_data.v_i};
-        GC_PRINT_VECTOR;
+        GC_PRINT_VECTOR(vi);
         break;
       }
       case GC_type::VEC_LONG: {
         vec_long_type const & v{*m_data.v_l};
-        GC_PRINT_VECTOR;
+        GC_PRINT_VECTOR(vi);
         break;
       }
       case GC_type::VEC_REAL: {
         vec_real_type const & v{*m_data.v_r};
-        GC_PRINT_VECTOR;
+        GC_PRINT_VECTOR(vi);
         break;
       }
       case GC_type::VEC_COMPLEX: {
         vec_complex_type const & v{*m_data.v_c};
-        GC_PRINT_VECTOR;
+        GC_PRINT_VECTOR(to_string(vi));
         break;
       }
       case GC_type::VEC_STRING: {
@@ -165,7 +165,7 @@ namespace GC_namespace {
         }
         break;
       }
-      #define GC_PRINT_MATRIX                        \
+      #define GC_PRINT_MATRIX(MDATA)                 \
         unsigned NR{M.num_rows()};                   \
         unsigned NC{M.num_cols()};                   \
         stream << ( NC == 0 ? "[ ]\n" : "\n" );      \
@@ -173,7 +173,7 @@ namespace GC_namespace {
           stream << prefix << "- [";                 \
           char const * pre = " ";                    \
           for ( unsigned i{0}; i < NR; ++i )         \
-            { stream << pre << M(i,j); pre = ", "; } \
+            { stream << pre << MDATA; pre = ", "; }  \
           stream << " ]\n";                          \
         }
 
@@ -191,22 +191,22 @@ namespace GC_namespace {
 
       case GC_type::MAT_INTEGER: {
         mat_int_type const & M{*m_data.m_i};
-        GC_PRINT_MATRIX;
+        GC_PRINT_MATRIX(M(i,j));
         break;
       }
       case GC_type::MAT_LONG: {
         mat_long_type const & M{*m_data.m_l};
-        GC_PRINT_MATRIX;
+        GC_PRINT_MATRIX(M(i,j));
         break;
       }
       case GC_type::MAT_REAL: {
         mat_real_type const & M{*m_data.m_r};
-        GC_PRINT_MATRIX;
+        GC_PRINT_MATRIX(M(i,j));
         break;
       }
       case GC_type::MAT_COMPLEX: {
         mat_complex_type const & M{*m_data.m_c};
-        GC_PRINT_MATRIX;
+        GC_PRINT_MATRIX(to_string(M(i,j)));
         break;
       }
       case GC_type::POINTER:
-- 
2.43.0


From 412dc3614dfd1aea5a4ca1ce241b7e3832d5a695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:18 +0000
Subject: [PATCH 058/106] fix: from_yaml merges the document with the old
 contents of the container

---
 src_yaml_interface/from_yaml.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src_yaml_interface/from_yaml.cc b/src_yaml_interface/from_yaml.cc
index 6f15fc3..ac7be3c 100755
--- a/src_yaml_interface/from_yaml.cc
+++ b/src_yaml_interface/from_yaml.cc
@@ -64,6 +64,7 @@ namespace GC_namespace {
   YAML_to_GC( fkyaml::node const & node, GenericContainer & gc ) {
     // Controlla il tipo di nodo
     bool ok{true};
+    gc.clear(); // do not merge with the old contents
     switch (node.get_type()) {
       case fkyaml::node_type::NULL_OBJECT: {
         gc.clear();
-- 
2.43.0


From 351bf7e55343395cc74aa324d636a9ba30633da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:16 +0000
Subject: [PATCH 059/106] fix: from_json2 appends the elements of nested arrays
 to the outer one

---
 src_json_interface/jsonParser.tab.hh | 4 ++--
 src_json_interface/jsonParser.yy     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src_json_interface/jsonParser.tab.hh b/src_json_interface/jsonParser.tab.hh
index 7df0263..68d1e30 100644
--- a/src_json_interface/jsonParser.tab.hh
+++ b/src_json_interface/jsonParser.tab.hh
@@ -121,8 +121,8 @@
     void open_map()  { m_stack.push_back( get_gc() ); m_stack.back()->set_map(); }
     void close_map() { m_stack.pop_back(); }
 
-    void open_vector()  { get_gc()->set_vector(); }
-    void close_vector() { }
+    void open_vector()  { m_stack.push_back( get_gc() ); m_stack.back()->set_vector(); }
+    void close_vector() { m_stack.pop_back(); }
 
     void
     set_key( string const & s ) {
diff --git a/src_json_interface/jsonParser.yy b/src_json_interface/jsonParser.yy
index c9e16a1..0b67c5b 100644
--- a/src_json_interface/jsonParser.yy
+++ b/src_json_interface/jsonParser.yy
@@ -76,8 +76,8 @@
     void open_map()  { m_stack.push_back( get_gc() ); m_stack.back()->set_map(); }
     void close_map() { m_stack.pop_back(); }
 
-    void open_vector()  { get_gc()->set_vector(); }
-    void close_vector() { }
+    void open_vector()  { m_stack.push_back( get_gc() ); m_stack.back()->set_vector(); }
+    void close_vector() { m_stack.pop_back(); }
 
     void
     set_key( string const & s ) {
-- 
2.43.0


From b1f76c39a22c7647e86a43a407227a2b5bc40326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:16 +0000
Subject: [PATCH 060/106] fix: from_json2 merges the document with the old
 contents of the container

---
 src_json_interface/from_json2.cc     | 2 ++
 src_json_interface/jsonParser.tab.hh | 1 +
 src_json_interface/jsonParser.yy     | 1 +
 3 files changed, 4 insertions(+)

diff --git a/src_json_interface/from_json2.cc b/src_json_interface/from_json2.cc
index 59eaa5d..ec211a8 100644
--- a/src_json_interface/from_json2.cc
+++ b/src_json_interface/from_json2.cc
@@ -15,6 +15,8 @@ namespace GC_namespace {
   bool
   GenericContainer::from_json2( istream_type & stream ) {
 
+    this->clear(); // do not merge with the old contents
+
     // Crea il lexer e reindirizza l'input verso il file
     yy::jsonLexer lexer;
     lexer.set_stream(&stream);
diff --git a/src_json_interface/jsonParser.tab.hh b/src_json_interface/jsonParser.tab.hh
index 68d1e30..48e99f6 100644
--- a/src_json_interface/jsonParser.tab.hh
+++ b/src_json_interface/jsonParser.tab.hh
@@ -128,6 +128,7 @@
     set_key( string const & s ) {
       map_type & m{ get_gc()->set_map() };
       m_stack.push_back( &m[s] );
+      m_stack.back()->clear(); // a repeated key replaces the old value
     }
 
     void pop() { m_stack.pop_back(); }
diff --git a/src_json_interface/jsonParser.yy b/src_json_interface/jsonParser.yy
index 0b67c5b..31defc9 100644
--- a/src_json_interface/jsonParser.yy
+++ b/src_json_interface/jsonParser.yy
@@ -83,6 +83,7 @@
     set_key( string const & s ) {
       map_type & m{ get_gc()->set_map() };
       m_stack.push_back( &m[s] );
+      m_stack.back()->clear(); // a repeated key replaces the old value
     }
 
     void pop() { m_stack.pop_back(); }
-- 
2.43.0


From 059ade52ed743311cb2efb8919754a1d18035439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:16 +0000
Subject: [PATCH 061/106] fix: from_json2 saturates the integers out of the
 range of long_type

---
 src_json_interface/jsonParser.tab.hh | 6 +++++-
 src_json_interface/jsonParser.yy     | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src_json_interface/jsonParser.tab.hh b/src_json_interface/jsonParser.tab.hh
index 48e99f6..730a62b 100644
--- a/src_json_interface/jsonParser.tab.hh
+++ b/src_json_interface/jsonParser.tab.hh
@@ -47,6 +47,7 @@
 // "%code requires" blocks.
 #line 4 "jsonParser.yy"
 
+  #include <cerrno>
   #include <cstdlib>
   #include <sstream>
   #include "jsonLexer.hh"
@@ -104,9 +105,12 @@
     set_integer( string const & s ) {
       GenericContainer * gc{get_gc()};
       char * end{nullptr};
+      errno = 0;
       long long res = std::strtoll(s.c_str(), &end, 10);
       if ( *end == '\0' ) {
-        if ( res <= std::numeric_limits<GC::int_type>::max() &&
+        if ( errno == ERANGE ) {
+          gc->set_real( std::strtod( s.c_str(), &end ) ); // out of the range of long_type
+        } else if ( res <= std::numeric_limits<GC::int_type>::max() &&
              res >= std::numeric_limits<GC::int_type>::min() ) {
           gc->set_int(GC::int_type(res));
         } else {
diff --git a/src_json_interface/jsonParser.yy b/src_json_interface/jsonParser.yy
index 31defc9..67b27cb 100644
--- a/src_json_interface/jsonParser.yy
+++ b/src_json_interface/jsonParser.yy
@@ -2,6 +2,7 @@
 %language "c++"
 
 %code requires {
+  #include <cerrno>
   #include <cstdlib>
   #include <sstream>
   #include "jsonLexer.hh"
@@ -59,9 +60,12 @@
     set_integer( string const & s ) {
       GenericContainer * gc{get_gc()};
       char * end{nullptr};
+      errno = 0;
       long long res = std::strtoll(s.c_str(), &end, 10);
       if ( *end == '\0' ) {
-        if ( res <= std::numeric_limits<GC::int_type>::max() &&
+        if ( errno == ERANGE ) {
+          gc->set_real( std::strtod( s.c_str(), &end ) ); // out of the range of long_type
+        } else if ( res <= std::numeric_limits<GC::int_type>::max() &&
              res >= std::numeric_limits<GC::int_type>::min() ) {
           gc->set_int(GC::int_type(res));
         } else {
-- 
2.43.0


From eafe7ad35fbeed57f5a51a07a2b3254a88c98b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:16 +0000
Subject: [PATCH 062/106] fix: from_json2 takes what follows a lexical error as
 the end of the document

---
 src_json_interface/jsonLexer.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src_json_interface/jsonLexer.cc b/src_json_interface/jsonLexer.cc
index a4c38c8..54fb7e4 100644
--- a/src_json_interface/jsonLexer.cc
+++ b/src_json_interface/jsonLexer.cc
@@ -33,6 +33,8 @@ namespace yy {
       else                    break;
     } while ( ++m_cursor != m_input.end() );
 
+    if ( m_cursor == m_input.end() ) return 0; // EOF
+
     auto res{yy::parser::token::ERROR};
 
     if ( !unicode_1(*m_cursor) ) return res;
@@ -72,7 +74,7 @@ namespace yy {
         // controllo che non sia unicode
         if ( unicode_1(ch0) ) {
           if ( ch0 == '\\' ) {
-            if ( ++m_cursor == m_input.end() ) return 0; // EOF
+            if ( ++m_cursor == m_input.end() ) return res; // unterminated string
             char const & ch1{*m_cursor};
             switch (ch1) {
             case 'n':  m_lexeme += '\n'; break;
@@ -91,17 +93,17 @@ namespace yy {
           }
         } else { // multibyte unicode
           m_lexeme += ch0;
-          if ( ++m_cursor == m_input.end() ) return 0; // EOF
+          if ( ++m_cursor == m_input.end() ) return res; // unterminated string
           char const & ch1{*m_cursor};
           if ( !ok_unicode(ch1) ) break; // Invalid UTF-8 continuation byte
           m_lexeme += ch1;
           if ( unicode_min_3(ch0) ) {
-            if ( ++m_cursor == m_input.end() ) return 0; // EOF
+            if ( ++m_cursor == m_input.end() ) return res; // unterminated string
             char const & ch2{*m_cursor};
             if ( !ok_unicode(ch2) ) break; // Invalid UTF-8 continuation byte
             m_lexeme += ch2;
             if ( unicode_min_4(ch0) ) {
-              if ( ++m_cursor == m_input.end() ) return 0; // EOF
+              if ( ++m_cursor == m_input.end() ) return res; // unterminated string
               char const & ch3{*m_cursor};
               if ( !ok_unicode(ch3) ) break; // Invalid UTF-8 continuation byte
               m_lexeme += ch3;
@@ -137,7 +139,7 @@ namespace yy {
           if ( state > 2 || state == 0 ) break;
           state = 3;
         } else if ( ch == '+' || ch == '-' ) {
-          if ( state != 3 ) return false;
+          if ( state != 3 ) break;
           state = 4;
         } else {
           //std::cout << "STATE = " << state << '\n';
@@ -153,7 +155,7 @@ namespace yy {
       //std::cerr << "lexeme: " << m_lexeme << "\n";
       //std::cerr << "FAILED\n";
       m_cursor = start_pos;  // Ripristina la posizione iniziale
-      return -1;             // Se nessuna corrispondenza
+      return res;            // Se nessuna corrispondenza
     } else {
       m_colno += m_cursor-start_pos;
       //yylloc->begin.line   = m_lineno;
-- 
2.43.0


From 66bb361c701a9e250fedbc8c2eeca23fffb13be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:16 +0000
Subject: [PATCH 063/106] fix: from_json2 calls isspace and isdigit with
 negative characters

---
 src_json_interface/jsonLexer.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src_json_interface/jsonLexer.cc b/src_json_interface/jsonLexer.cc
index 54fb7e4..5993959 100644
--- a/src_json_interface/jsonLexer.cc
+++ b/src_json_interface/jsonLexer.cc
@@ -29,7 +29,7 @@ namespace yy {
     do {
       char const & ch{*m_cursor};
       if      ( ch == '\n'  ) { ++m_lineno; m_colno = 1; }
-      else if ( isspace(ch) ) ++m_colno;
+      else if ( isspace(static_cast<unsigned char>(ch)) ) ++m_colno;
       else                    break;
     } while ( ++m_cursor != m_input.end() );
 
@@ -129,7 +129,7 @@ namespace yy {
       while ( ++m_cursor != m_input.end() ) {
         char const & ch{*m_cursor};
         m_lexeme += ch;
-        if ( isdigit(ch) ) {
+        if ( isdigit(static_cast<unsigned char>(ch)) ) {
           if      ( state == 0 ) state = 1;
           else if ( state == 3 ) state = 4;
         } else if ( ch == '.' ) {
-- 
2.43.0


From 657f04c33f80b0e7dd4f5e1de7ea7f1203f17a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:16 +0000
Subject: [PATCH 064/106] fix: from_json2 loses a number at the end of the
 document, or with an incomplete exponent

---
 src_json_interface/jsonLexer.cc | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src_json_interface/jsonLexer.cc b/src_json_interface/jsonLexer.cc
index 5993959..62ba0ee 100644
--- a/src_json_interface/jsonLexer.cc
+++ b/src_json_interface/jsonLexer.cc
@@ -131,24 +131,25 @@ namespace yy {
         m_lexeme += ch;
         if ( isdigit(static_cast<unsigned char>(ch)) ) {
           if      ( state == 0 ) state = 1;
-          else if ( state == 3 ) state = 4;
+          else if ( state == 3 || state == 5 ) state = 4;
         } else if ( ch == '.' ) {
-          if ( state > 1 ) break;
+          if ( state > 1 ) { state = -1; break; }
           state = 2;
         } else if ( ch == 'e' || ch == 'E' ) {
-          if ( state > 2 || state == 0 ) break;
+          if ( state > 2 || state == 0 ) { state = -1; break; }
           state = 3;
         } else if ( ch == '+' || ch == '-' ) {
-          if ( state != 3 ) break;
-          state = 4;
+          if ( state != 3 ) { state = -1; break; }
+          state = 5; // at least a digit must follow
         } else {
           //std::cout << "STATE = " << state << '\n';
           m_lexeme.pop_back();
-          if      ( state == 1               ) res = yy::parser::token::INTEGER;
-          else if ( state == 4 || state == 2 ) res = yy::parser::token::FLOAT;
           break;
         }
       }
+      // the number may also end with the document
+      if      ( state == 1               ) res = yy::parser::token::INTEGER;
+      else if ( state == 4 || state == 2 ) res = yy::parser::token::FLOAT;
       break;
     }
     if ( res == yy::parser::token::ERROR ) {
-- 
2.43.0


From 7c64ddf132659d91e033ac4c6686d51d50fb647c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:16 +0000
Subject: [PATCH 065/106] fix: from_json2 does not decode the \\/ and \\uXXXX
 escapes

---
 src_json_interface/jsonLexer.cc | 50 +++++++++++++++++++++++++++++++++
 src_json_interface/jsonLexer.hh |  3 ++
 2 files changed, 53 insertions(+)

diff --git a/src_json_interface/jsonLexer.cc b/src_json_interface/jsonLexer.cc
index 62ba0ee..bf32bf8 100644
--- a/src_json_interface/jsonLexer.cc
+++ b/src_json_interface/jsonLexer.cc
@@ -19,6 +19,52 @@ namespace yy {
 
   inline bool ok_unicode ( char c ) { return ( reinterpret_cast<unsigned char&>(c) & 0xC0 ) == 0x80; }
 
+  // legge le 4 cifre esadecimali che seguono il cursore, -1 in caso di errore
+  int
+  jsonLexer::hex4() {
+    int code{0};
+    for ( int i{0}; i < 4; ++i ) {
+      if ( m_cursor == m_input.end() || ++m_cursor == m_input.end() ) return -1;
+      char const ch{*m_cursor};
+      code <<= 4;
+      if      ( ch >= '0' && ch <= '9' ) code += ch-'0';
+      else if ( ch >= 'a' && ch <= 'f' ) code += ch-'a'+10;
+      else if ( ch >= 'A' && ch <= 'F' ) code += ch-'A'+10;
+      else return -1;
+    }
+    return code;
+  }
+
+  // \uXXXX (anche coppie di surrogati) convertito in UTF-8, il cursore è su `u`
+  bool
+  jsonLexer::unicode_escape() {
+    int code{hex4()};
+    if ( code < 0 || ( code >= 0xDC00 && code <= 0xDFFF ) ) return false;
+    if ( code >= 0xD800 && code <= 0xDBFF ) {
+      if ( ++m_cursor == m_input.end() || *m_cursor != '\\' ) return false;
+      if ( ++m_cursor == m_input.end() || *m_cursor != 'u'  ) return false;
+      int const low{hex4()};
+      if ( low < 0xDC00 || low > 0xDFFF ) return false;
+      code = 0x10000 + ((code-0xD800)<<10) + (low-0xDC00);
+    }
+    if ( code < 0x80 ) {
+      m_lexeme += static_cast<char>(code);
+    } else if ( code < 0x800 ) {
+      m_lexeme += static_cast<char>(0xC0|(code>>6));
+      m_lexeme += static_cast<char>(0x80|(code&0x3F));
+    } else if ( code < 0x10000 ) {
+      m_lexeme += static_cast<char>(0xE0|(code>>12));
+      m_lexeme += static_cast<char>(0x80|((code>>6)&0x3F));
+      m_lexeme += static_cast<char>(0x80|(code&0x3F));
+    } else {
+      m_lexeme += static_cast<char>(0xF0|(code>>18));
+      m_lexeme += static_cast<char>(0x80|((code>>12)&0x3F));
+      m_lexeme += static_cast<char>(0x80|((code>>6)&0x3F));
+      m_lexeme += static_cast<char>(0x80|(code&0x3F));
+    }
+    return true;
+  }
+
   // Restituisce il prossimo token
   int
   jsonLexer::yylex( std::string * yylval, yy::location * yylloc ) {
@@ -84,6 +130,10 @@ namespace yy {
             case 'r':  m_lexeme += '\r'; break;
             case 'b':  m_lexeme += '\b'; break;
             case 'f':  m_lexeme += '\f'; break;
+            case '/':  m_lexeme += '/';  break;
+            case 'u':
+              if ( !unicode_escape() ) return res; // bad escape
+              break;
             default:
               m_lexeme += '\\';
               m_lexeme += ch1;
diff --git a/src_json_interface/jsonLexer.hh b/src_json_interface/jsonLexer.hh
index 1906a70..cf70ce7 100644
--- a/src_json_interface/jsonLexer.hh
+++ b/src_json_interface/jsonLexer.hh
@@ -47,6 +47,9 @@ namespace yy {
 
   private:
 
+    int  hex4();
+    bool unicode_escape();
+
     std::string                 m_lexeme;
     std::istringstream          m_input_local;
     std::string                 m_input;
-- 
2.43.0


From 27d7b60cd549a8bfe700416f3cb690c02e542569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:57 +0000
Subject: [PATCH 066/106] fix: to_toml dereferences a null pointer when the
 container has an empty element

---
 src_toml_interface/to_toml.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_toml_interface/to_toml.cc b/src_toml_interface/to_toml.cc
index d8a1218..a1554ad 100755
--- a/src_toml_interface/to_toml.cc
+++ b/src_toml_interface/to_toml.cc
@@ -63,7 +63,7 @@ namespace GC_namespace {
     std::unique_ptr<toml::array> empty;
     switch ( gc.get_type() ) {
       case GC_type::NOTYPE:
-        return empty;
+        GC_DO_ERROR( "to_toml, TOML cannot represent an empty (null) value" );
       case GC_type::BOOL:    return NEW_UNIQUE( toml::value<bool>,    gc.get_bool() );
       case GC_type::INTEGER: return NEW_UNIQUE( toml::value<int64_t>, gc.get_int()  );
       case GC_type::LONG:    return NEW_UNIQUE( toml::value<int64_t>, gc.get_long() );
-- 
2.43.0


From 440c5215c7cd3f7b1bac88a92d45bfc05393dcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:58 +0000
Subject: [PATCH 067/106] fix: to_toml writes matrices of reals and of complex
 as matrices of long integers

---
 src_toml_interface/to_toml.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src_toml_interface/to_toml.cc b/src_toml_interface/to_toml.cc
index a1554ad..7152bf0 100755
--- a/src_toml_interface/to_toml.cc
+++ b/src_toml_interface/to_toml.cc
@@ -151,7 +151,7 @@ namespace GC_namespace {
         mat_real.insert("$ncols",gc.num_cols());
         mat_real.insert("$data",data);
         DEF_UNIQUE( toml::table );
-        node->as_table()->insert( "$mat_long", std::move(mat_real) );
+        node->as_table()->insert( "$mat_real", std::move(mat_real) );
         return node;
       }
       case GC_type::MAT_COMPLEX: {
@@ -166,7 +166,7 @@ namespace GC_namespace {
         mat_complex.insert("$data_real",data_real);
         mat_complex.insert("$data_imag",data_imag);
         DEF_UNIQUE( toml::table );
-        node->as_table()->insert( "$mat_long", std::move(mat_complex) );
+        node->as_table()->insert( "$mat_complex", std::move(mat_complex) );
         return node;
       }
       case GC_type::POINTER: {
-- 
2.43.0


From 82704833e536495db19bcb5e82fad65e7235b800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:58 +0000
Subject: [PATCH 068/106] fix: from_toml merges the document with the old
 contents of the container

---
 src_toml_interface/from_toml.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src_toml_interface/from_toml.cc b/src_toml_interface/from_toml.cc
index 70ab7cb..7307987 100755
--- a/src_toml_interface/from_toml.cc
+++ b/src_toml_interface/from_toml.cc
@@ -75,7 +75,8 @@ namespace GC_namespace {
   TOML_to_GC( toml::node const & node, GenericContainer & gc ) {
     // Controlla il tipo di nodo
     bool ok{true};
-    
+    gc.clear(); // do not merge with the old contents
+
     if ( node.is_string() ) {
 
       gc.set_string(node.as_string()->get());
-- 
2.43.0


From 207c68c7dc79a0538f747591214a1b04c08cd592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:58 +0000
Subject: [PATCH 069/106] fix: from_toml truncates the integers of arrays to 32
 bits

---
 src_toml_interface/from_toml.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src_toml_interface/from_toml.cc b/src_toml_interface/from_toml.cc
index 7307987..24021a5 100755
--- a/src_toml_interface/from_toml.cc
+++ b/src_toml_interface/from_toml.cc
@@ -141,10 +141,15 @@ namespace GC_namespace {
       bool is_string_array  { true };
       bool is_integer_array { true };
       bool is_float_array   { true };
+      bool is_int32_array   { true }; // all the integers can be stored as int_type
       for ( const auto & value : *ary ) {
         if ( !value.is_string()         ) is_string_array  = false;
         if ( !value.is_integer()        ) is_integer_array = false;
         if ( !value.is_floating_point() ) is_float_array   = false;
+        if ( value.is_integer() ) {
+          std::int64_t const tmp{ value.as_integer()->get() };
+          if ( tmp < numeric_limits<int32_t>::min() || tmp > numeric_limits<int32_t>::max() ) is_int32_array = false;
+        }
       }
       size_t N{ ary->size() };
       if ( is_string_array ) {
@@ -153,6 +158,12 @@ namespace GC_namespace {
         V.reserve( N );
         for ( const auto & value : *ary ) V.emplace_back( value.as_string()->get() );
 
+      } else if (is_integer_array && !is_int32_array) {
+
+        GC::vec_long_type & V{ gc.set_vec_long() };
+        V.reserve( N );
+        for ( const auto & value : *ary ) V.emplace_back( value.as_integer()->get() );
+
       } else if (is_integer_array) {
 
         GC::vec_int_type & V{ gc.set_vec_int() };
-- 
2.43.0


From 16e4e0f230bc0fc642652a23c20cce33e7015ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:58 +0000
Subject: [PATCH 070/106] fix: a vector of booleans is passed to Lua as nil

---
 src_lua_interface/GenericContainerInterface_lua.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src_lua_interface/GenericContainerInterface_lua.cc b/src_lua_interface/GenericContainerInterface_lua.cc
index 4968a88..93ab127 100644
--- a/src_lua_interface/GenericContainerInterface_lua.cc
+++ b/src_lua_interface/GenericContainerInterface_lua.cc
@@ -261,7 +261,6 @@ namespace GC_namespace {
           lua_rawseti( L, -2, int(i+1) );
         }
       }
-      lua_pushnil(L);
       break;
     case GC_type::VEC_INTEGER:
       { vec_int_type const & vi = gc.get_vec_int();
-- 
2.43.0


From b5d218074bfbb9e0c2840638233a82b57c029ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:58 +0000
Subject: [PATCH 071/106] fix: numbers out of the range of long_type read from
 Lua are converted with undefined behaviour

---
 src_lua_interface/GenericContainerInterface_lua.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_lua_interface/GenericContainerInterface_lua.cc b/src_lua_interface/GenericContainerInterface_lua.cc
index 93ab127..d5eb3c6 100644
--- a/src_lua_interface/GenericContainerInterface_lua.cc
+++ b/src_lua_interface/GenericContainerInterface_lua.cc
@@ -88,7 +88,7 @@ namespace GC_namespace {
   inline
   bool
   isInteger64( real_type x )
-  { return isZero( x-static_cast<int64_t>(floor(x)) ); }
+  { return x >= -0x1p63 && x < 0x1p63 && isZero( x-static_cast<real_type>(static_cast<int64_t>(floor(x))) ); }
 
   /*
   //   _                _           ____  ____
-- 
2.43.0


From 30d1404d759e416b8bb98471af20570f5d0fdf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:58 +0000
Subject: [PATCH 072/106] fix: long integers lose digits when they pass through
 Lua as real numbers

---
 .../GenericContainerInterface_lua.cc          | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src_lua_interface/GenericContainerInterface_lua.cc b/src_lua_interface/GenericContainerInterface_lua.cc
index d5eb3c6..280439c 100644
--- a/src_lua_interface/GenericContainerInterface_lua.cc
+++ b/src_lua_interface/GenericContainerInterface_lua.cc
@@ -124,6 +124,8 @@ namespace GC_namespace {
         if ( gc.get_type() == GC_type::VEC_REAL ||
              gc.get_type() == GC_type::MAT_REAL ) {
           gc.get_real_at(idx) = val;
+        } else if ( lua_isinteger(L, -1) ) {
+          gc.get_long_at(idx) = lua_tointeger(L, -1);
         } else if ( isInteger64(val) ) {
           gc.get_long_at(idx) = long_type(val);
         } else {
@@ -155,8 +157,9 @@ namespace GC_namespace {
       case LUA_TNUMBER:
         {
           real_type val = lua_tonumber(L, -1);
-          if ( isInteger64(val) ) gc[key].set_long(long_type(val));
-          else                    gc[key].set_real(val);
+          if      ( lua_isinteger(L, -1) ) gc[key].set_long(lua_tointeger(L, -1));
+          else if ( isInteger64(val)     ) gc[key].set_long(long_type(val));
+          else                             gc[key].set_real(val);
         }
         break;
       case LUA_TSTRING:
@@ -200,8 +203,9 @@ namespace GC_namespace {
       case LUA_TNUMBER:
         {
         real_type val = lua_tonumber(L, -1);
-        if ( isInteger64(val) ) gc.set_long(long_type(val));
-        else                    gc.set_real(val);
+        if      ( lua_isinteger(L, -1) ) gc.set_long(lua_tointeger(L, -1));
+        else if ( isInteger64(val)     ) gc.set_long(long_type(val));
+        else                             gc.set_real(val);
         }
         break;
       case LUA_TSTRING:
@@ -242,7 +246,7 @@ namespace GC_namespace {
       lua_pushnumber( L, gc.get_int() );
       break;
     case GC_type::LONG:
-      lua_pushnumber( L, lua_Number(gc.get_long()) );
+      lua_pushinteger( L, gc.get_long() );
       break;
     case GC_type::REAL:
       lua_pushnumber( L, gc.get_real() );
@@ -275,7 +279,7 @@ namespace GC_namespace {
       { vec_long_type const & vi = gc.get_vec_long();
         lua_createtable(L, int(vi.size()), 0);
         for ( unsigned i = 0; i < vi.size(); ++i ) {
-          lua_pushnumber( L, lua_Number(vi[i]) );
+          lua_pushinteger( L, vi[i] );
           lua_rawseti( L, -2, int(i+1) );
         }
       }
@@ -443,8 +447,9 @@ namespace GC_namespace {
     case LUA_TNUMBER:
       {
         real_type val = lua_tonumber(L, -1);
-        if ( isInteger64(val) ) gc.set_long(long_type(val));
-        else                    gc.set_real(val);
+        if      ( lua_isinteger(L, -1) ) gc.set_long(lua_tointeger(L, -1));
+        else if ( isInteger64(val)     ) gc.set_long(long_type(val));
+        else                             gc.set_real(val);
       }
       break;
     case LUA_TSTRING:
-- 
2.43.0


From 82e3361e206933dfd5454bd56425def4386395c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:58 +0000
Subject: [PATCH 073/106] fix: strings and keys are cut at the first NUL when
 they pass through Lua

---
 .../GenericContainerInterface_lua.cc          | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src_lua_interface/GenericContainerInterface_lua.cc b/src_lua_interface/GenericContainerInterface_lua.cc
index 280439c..62fc46f 100644
--- a/src_lua_interface/GenericContainerInterface_lua.cc
+++ b/src_lua_interface/GenericContainerInterface_lua.cc
@@ -103,6 +103,14 @@ namespace GC_namespace {
   void
   lua_table_to_GC( lua_State * L, GenericContainer & gc );
 
+  static
+  string
+  get_lua_string( lua_State * L, int idx ) {
+    size_t len;
+    char const * s = lua_tolstring( L, idx, &len );
+    return string( s, len );
+  }
+
   static
   void
   push_vec_element( lua_State * L, GenericContainer & gc ) {
@@ -134,7 +142,7 @@ namespace GC_namespace {
       }
       break;
     case LUA_TSTRING:
-      gc.get_string_at(idx) = lua_tostring(L, -1);
+      gc.get_string_at(idx) = get_lua_string(L, -1);
       break;
     case LUA_TTABLE:
       lua_table_to_GC( L, gc[idx] );
@@ -148,7 +156,7 @@ namespace GC_namespace {
   void
   push_hash_element( lua_State * L, GenericContainer & gc ) {
     // assegna il valore
-    string key  = lua_tostring(L, -2);
+    string key  = get_lua_string(L, -2);
     int    type = lua_type(L, -1);
     switch( type ) {
       case LUA_TBOOLEAN:
@@ -163,7 +171,7 @@ namespace GC_namespace {
         }
         break;
       case LUA_TSTRING:
-        gc[key].set_string(lua_tostring(L, -1));
+        gc[key].set_string(get_lua_string(L, -1));
         break;
       case LUA_TTABLE:
         lua_table_to_GC( L, gc[key] );
@@ -209,7 +217,7 @@ namespace GC_namespace {
         }
         break;
       case LUA_TSTRING:
-        gc.set_string(lua_tostring(L, -1));
+        gc.set_string(get_lua_string(L, -1));
         break;
       case LUA_TTABLE:
         lua_table_to_GC( L, gc );
@@ -252,7 +260,7 @@ namespace GC_namespace {
       lua_pushnumber( L, gc.get_real() );
       break;
     case GC_type::STRING:
-      lua_pushstring( L, gc.get_string().data() );
+      lua_pushlstring( L, gc.get_string().data(), gc.get_string().length() );
       break;
     case GC_type::VEC_POINTER:
       lua_pushnil(L);
@@ -297,7 +305,7 @@ namespace GC_namespace {
       { vec_string_type const & vs = gc.get_vec_string();
         lua_createtable( L, int(vs.size()), 0);
         for ( unsigned i = 0; i < vs.size(); ++i ) {
-          lua_pushstring( L, vs[i].c_str() );
+          lua_pushlstring( L, vs[i].c_str(), vs[i].length() );
           lua_rawseti( L, -2, int(i+1) );
         }
       }
@@ -315,7 +323,7 @@ namespace GC_namespace {
       { map_type const & m = gc.get_map();
         lua_createtable(L, int(m.size()), 0);
         for ( map_type::const_iterator it = m.begin(); it != m.end(); ++it ) {
-          lua_pushstring(L, it->first.c_str());
+          lua_pushlstring( L, it->first.c_str(), it->first.length() );
           GC_to_lua( L, it->second );
           lua_settable( L, -3 );
         }
@@ -453,7 +461,7 @@ namespace GC_namespace {
       }
       break;
     case LUA_TSTRING:
-      gc.set_string(lua_tostring(L, -1));
+      gc.set_string(get_lua_string(L, -1));
       break;
     case LUA_TTABLE:
       lua_table_to_GC( L, gc );
-- 
2.43.0


From dce31738446598dbadab3ac0ae84a2028bc947b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:51 +0000
Subject: [PATCH 074/106] fix: Lua tables with zero, negative or fractional
 indices allocate a huge vector

---
 src_lua_interface/GenericContainerInterface_lua.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src_lua_interface/GenericContainerInterface_lua.cc b/src_lua_interface/GenericContainerInterface_lua.cc
index 62fc46f..6006fa3 100644
--- a/src_lua_interface/GenericContainerInterface_lua.cc
+++ b/src_lua_interface/GenericContainerInterface_lua.cc
@@ -58,6 +58,7 @@
   #endif
 #endif
 
+#include <limits>
 #include <signal.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -116,7 +117,12 @@ namespace GC_namespace {
   push_vec_element( lua_State * L, GenericContainer & gc ) {
     // assegna il valore
     // index start from 1 in LUA
-    unsigned    idx  = unsigned(lua_tointeger(L, -2)-1);
+    lua_Integer const key{ lua_tointeger(L, -2) };
+    GC_ASSERT(
+      lua_isinteger(L, -2) && key >= 1 && key <= std::numeric_limits<int>::max(),
+      "lua_table_to_GC, bad index " << lua_tonumber(L, -2) << " in a Lua table, must be an integer > 0"
+    )
+    unsigned    idx  = unsigned(key-1);
     lua_Integer type = lua_type(L, -1);
     switch( type ) {
     case LUA_TBOOLEAN:
-- 
2.43.0


From e4334e1efe97fb0dd95bf2759d7d000e38eb7718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:51 +0000
Subject: [PATCH 075/106] fix: values left on the Lua stack overflow it after
 some tens of calls

---
 .../GenericContainerInterface_lua.cc           | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src_lua_interface/GenericContainerInterface_lua.cc b/src_lua_interface/GenericContainerInterface_lua.cc
index 6006fa3..a60d25d 100644
--- a/src_lua_interface/GenericContainerInterface_lua.cc
+++ b/src_lua_interface/GenericContainerInterface_lua.cc
@@ -104,6 +104,17 @@ namespace GC_namespace {
   void
   lua_table_to_GC( lua_State * L, GenericContainer & gc );
 
+  // restore the top of the Lua stack when leaving the scope, also in case of exception
+  class LuaStackGuard {
+    lua_State * m_L;
+    int         m_top;
+  public:
+    explicit LuaStackGuard( lua_State * L ) : m_L(L), m_top(lua_gettop(L)) {}
+    ~LuaStackGuard() { lua_settop( m_L, m_top ); }
+    LuaStackGuard( LuaStackGuard const & ) = delete;
+    LuaStackGuard & operator = ( LuaStackGuard const & ) = delete;
+  };
+
   static
   string
   get_lua_string( lua_State * L, int idx ) {
@@ -228,7 +239,6 @@ namespace GC_namespace {
       case LUA_TTABLE:
         lua_table_to_GC( L, gc );
         //global_to_GC( gc );
-        lua_settop(L, 0);
         break;
     }
   }
@@ -385,6 +395,7 @@ namespace GC_namespace {
       "LuaInterpreter::do_file('" << filename <<
       "')\nlua_State invalid!"
     )
+    LuaStackGuard const guard{L};
     if ( luaL_loadfile(L, filename) || lua_pcall(L, 0, 0, 0)  ) {
       GC_ASSERT(
         lua_isnil(L,-1),
@@ -399,6 +410,7 @@ namespace GC_namespace {
   void
   LuaInterpreter::execute( char const cmd[] ) {
     lua_State *& L = *(reinterpret_cast<lua_State**>(&void_L));
+    LuaStackGuard const guard{L};
     GC_ASSERT(
       L != nullptr &&
       !luaL_loadbuffer(L, cmd, strlen(cmd), "line") &&
@@ -419,6 +431,7 @@ namespace GC_namespace {
     GenericContainer const & args = fun_io("args");
 
     // push functions and arguments
+    LuaStackGuard const guard{L};
     lua_getglobal( L, fname.data() );  // function to be called
     GC_to_lua( L, args );
 
@@ -446,6 +459,7 @@ namespace GC_namespace {
       L != nullptr, "LuaInterpreter::global_to_GC(...) lua_State invalid!"
     )
 
+    LuaStackGuard const guard{L};
     lua_getglobal( L, global_var );
     GC_ASSERT(
       !lua_isnil(L,-1),
@@ -472,7 +486,6 @@ namespace GC_namespace {
     case LUA_TTABLE:
       lua_table_to_GC( L, gc );
       //global_to_GC( gc );
-      lua_settop(L, 0);
       break;
     default:
       GC_DO_ERROR(
@@ -493,6 +506,7 @@ namespace GC_namespace {
     char             const * global_var
   ) {
     lua_State *& L = *(reinterpret_cast<lua_State**>(&void_L));
+    LuaStackGuard const guard{L};
     GC_to_lua( L, gc );
     lua_setglobal( L, global_var );
   }
-- 
2.43.0


From cf717654791dd5e983cbeee72590b1f80835fa80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:51 +0000
Subject: [PATCH 076/106] fix: nested containers and tables overflow the Lua
 stack

---
 src_lua_interface/GenericContainerInterface_lua.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src_lua_interface/GenericContainerInterface_lua.cc b/src_lua_interface/GenericContainerInterface_lua.cc
index a60d25d..383a983 100644
--- a/src_lua_interface/GenericContainerInterface_lua.cc
+++ b/src_lua_interface/GenericContainerInterface_lua.cc
@@ -202,6 +202,7 @@ namespace GC_namespace {
   void
   lua_table_to_GC( lua_State * L, GenericContainer & gc ) {
     // ---
+    GC_ASSERT( lua_checkstack( L, 4 ), "lua_table_to_GC, Lua stack overflow" )
     lua_pushnil(L); // first key
     // ---
     while ( lua_next(L,-2) != 0 ) {
@@ -256,6 +257,7 @@ namespace GC_namespace {
   void
   GC_to_lua( lua_State * L, GenericContainer const & gc ) {
     // inizializzazione
+    GC_ASSERT( lua_checkstack( L, 4 ), "GC_to_lua, Lua stack overflow" )
     switch ( gc.get_type() ) {
     case GC_type::NOTYPE:
       lua_pushnil(L);
@@ -460,6 +462,7 @@ namespace GC_namespace {
     )
 
     LuaStackGuard const guard{L};
+    GC_ASSERT( lua_checkstack( L, 4 ), "global_to_GC, Lua stack overflow" )
     lua_getglobal( L, global_var );
     GC_ASSERT(
       !lua_isnil(L,-1),
-- 
2.43.0


From 294f236a79128703c2f8ff21b19a5b9ac7351b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:51 +0000
Subject: [PATCH 077/106] fix: Lua arrays of mixed types lose their elements or
 are rejected

---
 .../GenericContainerInterface_lua.cc           | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src_lua_interface/GenericContainerInterface_lua.cc b/src_lua_interface/GenericContainerInterface_lua.cc
index 383a983..be2782c 100644
--- a/src_lua_interface/GenericContainerInterface_lua.cc
+++ b/src_lua_interface/GenericContainerInterface_lua.cc
@@ -138,14 +138,21 @@ namespace GC_namespace {
     switch( type ) {
     case LUA_TBOOLEAN:
       {
-        gc.get_bool_at(idx);
-        vec_bool_type & bv = gc.get_vec_bool();
-        bv[idx] = lua_toboolean(L, -1) ? true : false;
+        bool const val{ lua_toboolean(L, -1) != 0 };
+        if ( gc.get_type() == GC_type::NOTYPE || gc.get_type() == GC_type::VEC_BOOL ) {
+          gc.get_bool_at(idx);
+          vec_bool_type & bv = gc.get_vec_bool();
+          bv[idx] = val;
+        } else {
+          gc.promote_to_vector(); // mixed types
+          gc[idx].set_bool( val );
+        }
       }
       break;
     case LUA_TNUMBER:
       {
         real_type val = lua_tonumber(L, -1);
+        if ( gc.get_type() == GC_type::VEC_BOOL ) gc.promote_to_vector(); // mixed types
         if ( gc.get_type() == GC_type::VEC_REAL ||
              gc.get_type() == GC_type::MAT_REAL ) {
           gc.get_real_at(idx) = val;
@@ -162,6 +169,7 @@ namespace GC_namespace {
       gc.get_string_at(idx) = get_lua_string(L, -1);
       break;
     case LUA_TTABLE:
+      if ( gc.get_type() != GC_type::NOTYPE ) gc.promote_to_vector(); // mixed types
       lua_table_to_GC( L, gc[idx] );
       break;
     }
@@ -173,6 +181,10 @@ namespace GC_namespace {
   void
   push_hash_element( lua_State * L, GenericContainer & gc ) {
     // assegna il valore
+    GC_ASSERT(
+      gc.get_type() == GC_type::NOTYPE || gc.get_type() == GC_type::MAP,
+      "lua_table_to_GC, cannot convert a Lua table with both indices and keys"
+    )
     string key  = get_lua_string(L, -2);
     int    type = lua_type(L, -1);
     switch( type ) {
-- 
2.43.0


From 2050e6258cf3452a7ee006e700ee3e102efecadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:40 +0000
Subject: [PATCH 078/106] fix: const typed map look-ups must not turn a null
 entry into a value

---
 src/GenericContainer.cc | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index babddd9..8433003 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -2359,7 +2359,8 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(string(key)).get_bool( where );
+    GenericContainer const & gc{ this->m_data.m->at(string(key)) }; // const access: must not create
+    return gc.get_bool( where );
   }
 
   bool_type
@@ -2382,7 +2383,8 @@ namespace GC_namespace {
     string_view     const   where
   ) const {
     string const who{ must_exists( keys, where ) };
-    return this->m_data.m->at(who).get_bool( where );
+    GenericContainer const & gc{ this->m_data.m->at(who) }; // const access: must not create
+    return gc.get_bool( where );
   }
 
   int_type
@@ -2455,7 +2457,8 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(string(key)).get_string( where );
+    GenericContainer const & gc{ this->m_data.m->at(string(key)) }; // const access: must not create
+    return gc.get_string( where );
   }
 
   string_view
@@ -2478,7 +2481,8 @@ namespace GC_namespace {
     string_view     const   where
   ) const {
     string const who{ must_exists( keys, where ) };
-    return this->m_data.m->at(who).get_string( where );
+    GenericContainer const & gc{ this->m_data.m->at(who) }; // const access: must not create
+    return gc.get_string( where );
   }
 
   vec_real_type const &
@@ -2551,7 +2555,8 @@ namespace GC_namespace {
     string_view const where
   ) const {
     GC_ASSERT( this->exists(key), where << " key: `" << key << "` is missing" );
-    return this->m_data.m->at(string(key)).get_vec_string( where );
+    GenericContainer const & gc{ this->m_data.m->at(string(key)) }; // const access: must not create
+    return gc.get_vec_string( where );
   }
 
   vec_string_type const &
@@ -2574,7 +2579,8 @@ namespace GC_namespace {
     string_view     const   where
   ) const {
     string const who{ must_exists( keys, where ) };
-    return this->m_data.m->at(who).get_vec_string( where );
+    GenericContainer const & gc{ this->m_data.m->at(who) }; // const access: must not create
+    return gc.get_vec_string( where );
   }
 
   // --------------------------------------------------------------
-- 
2.43.0


From 1c3cd8db797399576d460f57dac60f8f99b2c8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:26 +0000
Subject: [PATCH 079/106] fix: serialize into a vector enlarges it when it is
 too small, as documented

---
 src/GenericContainerSerialize.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GenericContainerSerialize.cc b/src/GenericContainerSerialize.cc
index f0a768a..93a9701 100755
--- a/src/GenericContainerSerialize.cc
+++ b/src/GenericContainerSerialize.cc
@@ -213,6 +213,8 @@ namespace GC_namespace {
 
   int32_t
   GenericContainer::serialize( std::vector<uint8_t> & buffer ) const {
+    int32_t const need{ this->mem_size() };
+    if ( buffer.size() < static_cast<std::size_t>(need) ) buffer.resize( static_cast<std::size_t>(need) );
     int32_t const sz{ static_cast<int32_t>(buffer.size()) };
     return this->serialize( sz, buffer.data() );
   }
-- 
2.43.0


From 5ffdc924a29dfc2e18b760c4f16dc9b80321c073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:31 +0000
Subject: [PATCH 080/106] fix: from_yaml ends a double quoted string too early
 when it begins with backslashes

---
 .../fkYAML/detail/input/lexical_analyzer.hpp             | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp b/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp
index 130a9d3..ff5626c 100644
--- a/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp
+++ b/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp
@@ -811,13 +811,10 @@ private:
                 // * odd number of backslashes  -> double quotation mark IS escaped (e.g., "\\\"")
                 // * even number of backslashes -> double quotation mark IS NOT escaped (e.g., "\\"")
                 uint32_t backslash_counts = 0;
-                const char* p = m_token_begin_itr + (pos - 1);
-                do {
-                    if (*p-- != '\\') {
-                        break;
-                    }
+                const char* p = m_token_begin_itr + pos;
+                while (p != m_token_begin_itr && *--p == '\\') {
                     ++backslash_counts;
-                } while (p != m_token_begin_itr);
+                }
                 is_closed = ((backslash_counts & 1u) == 0); // true: even, false: odd
             }
 
-- 
2.43.0


From eaf4ef8ea0ef14b6ff3c7a05f0cc3327c6a4ddf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:31 +0000
Subject: [PATCH 081/106] fix: to_toml writes strings that begin with a newline
 so that it is lost on reading

---
 src_toml_interface/to_toml.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src_toml_interface/to_toml.cc b/src_toml_interface/to_toml.cc
index 7152bf0..1a269ca 100755
--- a/src_toml_interface/to_toml.cc
+++ b/src_toml_interface/to_toml.cc
@@ -194,7 +194,9 @@ namespace GC_namespace {
     try {
       // deserialize the loaded file contents.
       std::unique_ptr<toml::node> root{ GC_to_TOML( *this ) };
-      if ( ok ) stream << toml::toml_formatter(*root);
+      // a multi line string loses the newline it starts with when it is read back
+      toml::format_flags const flags{ toml::toml_formatter::default_flags & ~toml::format_flags::allow_multi_line_strings };
+      if ( ok ) stream << toml::toml_formatter( *root, flags );
     }
     catch ( std::exception const & e ) {
       std::cerr << "GenericContainer::to_toml: " << e.what() << '\n';
-- 
2.43.0


From 0d2cbc394d124863e41f7bcc3650018b8096169c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:25 +0000
Subject: [PATCH 082/106] fix: from_toml assumes a bare key or value is present
 where the text is malformed

---
 src_toml_interface/toml++/impl/parser.inl | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src_toml_interface/toml++/impl/parser.inl b/src_toml_interface/toml++/impl/parser.inl
index 6f0136f..ffd00c9 100644
--- a/src_toml_interface/toml++/impl/parser.inl
+++ b/src_toml_interface/toml++/impl/parser.inl
@@ -2546,7 +2546,6 @@ TOML_IMPL_NAMESPACE_START
 		{
 			return_if_error({});
 			assert_not_eof();
-			TOML_ASSERT_ASSUME(!is_value_terminator(*cp));
 			push_parse_scope("value"sv);
 
 			const depth_counter_scope depth_counter{ nested_values };
@@ -3034,7 +3033,6 @@ TOML_IMPL_NAMESPACE_START
 		{
 			return_if_error({});
 			assert_not_eof();
-			TOML_ASSERT_ASSUME(is_bare_key_character(*cp) || is_string_delimiter(*cp));
 			push_parse_scope("key"sv);
 
 			key_buffer.clear();
-- 
2.43.0


From 7e2902bb2c19d12df0b0ed4c6401335d5e5dd5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:27 +0000
Subject: [PATCH 083/106] fix: from_toml runs into undefined behaviour on
 non-ASCII characters outside strings

---
 src_toml_interface/toml++/impl/unicode_autogenerated.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_toml_interface/toml++/impl/unicode_autogenerated.hpp b/src_toml_interface/toml++/impl/unicode_autogenerated.hpp
index cadd9e7..5921711 100644
--- a/src_toml_interface/toml++/impl/unicode_autogenerated.hpp
+++ b/src_toml_interface/toml++/impl/unicode_autogenerated.hpp
@@ -41,7 +41,7 @@ TOML_IMPL_NAMESPACE_START
 			case 0x05: return c == U'\u1680' || c == U'\u180E';
 			case 0x07:
 				return (U'\u2000' <= c && c <= U'\u200B') || (U'\u205F' <= c && c <= U'\u2060') || c == U'\u202F';
-			default: TOML_UNREACHABLE;
+			default: return false;
 		}
 
 		TOML_UNREACHABLE;
-- 
2.43.0


From 14b5dce7084452ef310b9b5b30a925738e881bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:27 +0000
Subject: [PATCH 084/106] fix: from_yaml overflows a signed integer on large
 hexadecimal and octal numbers

---
 .../fkYAML/detail/conversions/scalar_conv.hpp             | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src_yaml_interface/fkYAML/detail/conversions/scalar_conv.hpp b/src_yaml_interface/fkYAML/detail/conversions/scalar_conv.hpp
index 4d74fa0..f4e60fa 100644
--- a/src_yaml_interface/fkYAML/detail/conversions/scalar_conv.hpp
+++ b/src_yaml_interface/fkYAML/detail/conversions/scalar_conv.hpp
@@ -569,7 +569,9 @@ inline bool atoi_oct(const char* p_begin, const char* p_end, IntType& i) noexcep
         if FK_YAML_UNLIKELY (c < '0' || '7' < c) {
             return false;
         }
-        i = i * static_cast<IntType>(8) + static_cast<IntType>(c - '0');
+        // unsigned arithmetic: the top bit of a signed output may be set.
+        using UIntType = typename std::make_unsigned<IntType>::type;
+        i = static_cast<IntType>(static_cast<UIntType>(i) * UIntType(8) + static_cast<UIntType>(c - '0'));
     } while (++p_begin != p_end);
 
     return true;
@@ -619,7 +621,9 @@ inline bool atoi_hex(const char* p_begin, const char* p_end, IntType& i) noexcep
         else {
             return false;
         }
-        i = i * static_cast<IntType>(16) + ci;
+        // unsigned arithmetic: the top bit of a signed output may be set.
+        using UIntType = typename std::make_unsigned<IntType>::type;
+        i = static_cast<IntType>(static_cast<UIntType>(i) * UIntType(16) + static_cast<UIntType>(ci));
         // NOLINTEND(bugprone-misplaced-widening-cast)
     } while (++p_begin != p_end);
 
-- 
2.43.0


From 1717e3037636633c49e62378be91ba735813a840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:27 +0000
Subject: [PATCH 085/106] fix: from_yaml reads past truncated UTF-8 sequences
 and hangs on a lone byte order mark

---
 .../fkYAML/detail/input/input_adapter.hpp          | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src_yaml_interface/fkYAML/detail/input/input_adapter.hpp b/src_yaml_interface/fkYAML/detail/input/input_adapter.hpp
index af74b16..4221376 100644
--- a/src_yaml_interface/fkYAML/detail/input/input_adapter.hpp
+++ b/src_yaml_interface/fkYAML/detail/input/input_adapter.hpp
@@ -821,6 +821,10 @@ private:
             const auto first = static_cast<uint8_t>(*current++);
             const uint32_t num_bytes = utf8::get_num_bytes(first);
 
+            if FK_YAML_UNLIKELY (end - current < static_cast<std::ptrdiff_t>(num_bytes) - 1) {
+                throw fkyaml::invalid_encoding("Invalid UTF-8 encoding.", {first});
+            }
+
             switch (num_bytes) {
             case 1:
                 break;
@@ -883,6 +887,10 @@ private:
                 m_istream->read(&chars[0], 2);
                 const std::streamsize size = m_istream->gcount();
                 if FK_YAML_UNLIKELY (size != 2) {
+                    // nothing follows the last character.
+                    if (encoded_buf_size < 2) {
+                        encoded_buffer[encoded_buf_size] = 0;
+                    }
                     break;
                 }
 
@@ -896,6 +904,10 @@ private:
                 }
             }
 
+            if FK_YAML_UNLIKELY (encoded_buf_size == 0) {
+                break;
+            }
+
             uint32_t consumed_size = 0;
             utf8::from_utf16(encoded_buffer, utf8_buffer, consumed_size, utf8_buf_size);
 
@@ -905,7 +917,7 @@ private:
             encoded_buf_size -= consumed_size;
 
             m_buffer.append(reinterpret_cast<const char*>(utf8_buffer.data()), utf8_buf_size);
-        } while (!m_istream->eof());
+        } while (!m_istream->eof() || encoded_buf_size != 0);
 
         return str_view {m_buffer.begin(), m_buffer.end()};
     }
-- 
2.43.0


From 139fcd6a82a585c97878a96c9a77d5499ac7a9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:27 +0000
Subject: [PATCH 086/106] fix: from_yaml reads out of bounds on incomplete
 block scalars, tags and directives

---
 .../fkYAML/detail/input/lexical_analyzer.hpp       | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp b/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp
index ff5626c..fcc725c 100644
--- a/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp
+++ b/src_yaml_interface/fkYAML/detail/input/lexical_analyzer.hpp
@@ -242,7 +242,9 @@ public:
         case '>': {
             const str_view sv {m_token_begin_itr, m_end_itr};
             const std::size_t header_end_pos = sv.find('\n');
-            FK_YAML_ASSERT(header_end_pos != str_view::npos);
+            if FK_YAML_UNLIKELY (header_end_pos == str_view::npos) {
+                emit_error("A block scalar header must be followed by a newline.");
+            }
             const uint32_t base_indent = get_current_indent_level(&sv[header_end_pos]);
 
             const lexical_token_t type = *m_token_begin_itr == '|' ? lexical_token_t::BLOCK_LITERAL_SCALAR
@@ -550,6 +552,10 @@ private:
         // extract a tag prefix.
         //
 
+        if FK_YAML_UNLIKELY (m_cur_itr == m_end_itr) {
+            emit_error("invalid TAG directive is found.");
+        }
+
         m_token_begin_itr = m_cur_itr;
         const char* p_tag_prefix_begin = m_cur_itr;
         switch (*m_cur_itr) {
@@ -691,7 +697,7 @@ private:
         bool is_named_handle = false;
         bool ends_loop = false;
         do {
-            if (++m_cur_itr == m_end_itr) {
+            if (m_cur_itr == m_end_itr || ++m_cur_itr == m_end_itr) {
                 break;
             }
 
@@ -999,7 +1005,9 @@ private:
         }
 
         if (indicated_indent == 0) {
-            FK_YAML_ASSERT(base_indent < cur_indent);
+            if FK_YAML_UNLIKELY (cur_indent <= base_indent) {
+                emit_error("The first non-empty line in the block scalar is not indented.");
+            }
             indicated_indent = cur_indent - base_indent;
         }
         else if FK_YAML_UNLIKELY (cur_indent < base_indent + indicated_indent) {
-- 
2.43.0


From e5eabde9e499151950615f7af65ae58d7d78fa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:27 +0000
Subject: [PATCH 087/106] fix: from_yaml corrupts memory, leaks or never ends
 on malformed structure and recursive aliases

---
 .../fkYAML/detail/input/deserializer.hpp      | 85 ++++++++++++-------
 1 file changed, 53 insertions(+), 32 deletions(-)

diff --git a/src_yaml_interface/fkYAML/detail/input/deserializer.hpp b/src_yaml_interface/fkYAML/detail/input/deserializer.hpp
index 2e9c586..2992cb9 100644
--- a/src_yaml_interface/fkYAML/detail/input/deserializer.hpp
+++ b/src_yaml_interface/fkYAML/detail/input/deserializer.hpp
@@ -85,18 +85,7 @@ class basic_deserializer {
         parse_context(parse_context&&) noexcept = default;
         parse_context& operator=(parse_context&&) noexcept = default;
 
-        ~parse_context() {
-            switch (state) {
-            case context_state_t::BLOCK_MAPPING_EXPLICIT_KEY:
-            case context_state_t::FLOW_SEQUENCE_KEY:
-            case context_state_t::FLOW_MAPPING_KEY:
-                delete p_node;
-                p_node = nullptr;
-                break;
-            default:
-                break;
-            }
-        }
+        ~parse_context() = default;
 
         /// The current line. (count from zero)
         uint32_t line {0};
@@ -108,6 +97,25 @@ class basic_deserializer {
         basic_node_type* p_node {nullptr};
     };
 
+    /// @brief The stack of parse contexts. A malformed document may leave it empty when a context is needed.
+    struct context_stack : public std::deque<parse_context> {
+        parse_context& back() {
+            check();
+            return std::deque<parse_context>::back();
+        }
+        void pop_back() {
+            check();
+            std::deque<parse_context>::pop_back();
+        }
+
+    private:
+        void check() const {
+            if FK_YAML_UNLIKELY (this->empty()) {
+                throw parse_error("Detected invalid document structure.", 0, 0);
+            }
+        }
+    };
+
     /// @brief Definitions of state types for expected flow token hints.
     enum class flow_token_state_t : std::uint8_t {
         NEEDS_VALUE_OR_SUFFIX,     //!< Either value or flow suffix (`]` or `}`)
@@ -288,6 +296,7 @@ private:
         m_flow_context_depth = 0;
         m_flow_token_state = flow_token_state_t::NEEDS_VALUE_OR_SUFFIX;
         m_context_stack.clear();
+        m_key_nodes.clear();
 
         return root;
     }
@@ -428,8 +437,7 @@ private:
 
                 token = lexer.get_next_token();
                 if (token.type == lexical_token_t::SEQUENCE_BLOCK_PREFIX) {
-                    // heap-allocated node will be freed in handling the corresponding KEY_SEPARATOR event
-                    auto* p_node = new basic_node_type(node_type::SEQUENCE);
+                    auto* p_node = new_key_node(node_type::SEQUENCE);
                     m_context_stack.emplace_back(line, indent, context_state_t::BLOCK_MAPPING_EXPLICIT_KEY, p_node);
 
                     apply_directive_set(*p_node);
@@ -450,9 +458,8 @@ private:
                     break;
                 }
 
-                // heap-allocated node will be freed in handling the corresponding KEY_SEPARATOR event
                 m_context_stack.emplace_back(
-                    line, indent, context_state_t::BLOCK_MAPPING_EXPLICIT_KEY, new basic_node_type());
+                    line, indent, context_state_t::BLOCK_MAPPING_EXPLICIT_KEY, new_key_node(node_type::NULL_OBJECT));
                 mp_current_node = m_context_stack.back().p_node;
                 apply_directive_set(*mp_current_node);
                 indent = lexer.get_last_token_begin_pos();
@@ -461,7 +468,6 @@ private:
                 continue;
             }
             case lexical_token_t::KEY_SEPARATOR: {
-                FK_YAML_ASSERT(!m_context_stack.empty());
                 if FK_YAML_UNLIKELY (m_context_stack.back().state == context_state_t::BLOCK_SEQUENCE_ENTRY) {
                     // empty mapping keys are not supported.
                     // ```yaml
@@ -571,7 +577,9 @@ private:
                     }
 
                     if (indent <= m_context_stack.back().indent) {
-                        FK_YAML_ASSERT(m_context_stack.back().state == context_state_t::MAPPING_VALUE);
+                        if FK_YAML_UNLIKELY (m_context_stack.back().state != context_state_t::MAPPING_VALUE) {
+                            throw parse_error("A mapping value is missing.", line, indent);
+                        }
 
                         // Mapping values can be omitted and are considered to be null.
                         // ```yaml
@@ -592,7 +600,10 @@ private:
                 }
 
                 // handle explicit mapping key separators.
-                FK_YAML_ASSERT(m_context_stack.back().state == context_state_t::BLOCK_MAPPING_EXPLICIT_KEY);
+                if FK_YAML_UNLIKELY (
+                    m_context_stack.back().state != context_state_t::BLOCK_MAPPING_EXPLICIT_KEY) {
+                    throw parse_error("A key separator is found without its key.", line, indent);
+                }
 
                 basic_node_type key_node = std::move(*m_context_stack.back().p_node);
                 m_context_stack.pop_back();
@@ -632,7 +643,6 @@ private:
                 // ```
                 continue;
             case lexical_token_t::SEQUENCE_BLOCK_PREFIX: {
-                FK_YAML_ASSERT(!m_context_stack.empty());
                 const uint32_t parent_indent = m_context_stack.back().indent;
                 if (indent == parent_indent) {
                     // If the previous block sequence entry is empty, just move to the parent context.
@@ -707,9 +717,8 @@ private:
                     break;
                 case context_state_t::BLOCK_MAPPING:
                 case context_state_t::FLOW_MAPPING:
-                    // heap-allocated node will be freed in handling the corresponding SEQUENCE_FLOW_END event.
                     m_context_stack.emplace_back(
-                        line, indent, context_state_t::FLOW_SEQUENCE_KEY, new basic_node_type(node_type::SEQUENCE));
+                        line, indent, context_state_t::FLOW_SEQUENCE_KEY, new_key_node(node_type::SEQUENCE));
                     mp_current_node = m_context_stack.back().p_node;
                     break;
                 default: {
@@ -767,7 +776,6 @@ private:
 
                 if (!m_context_stack.empty() && state == context_state_t::FLOW_SEQUENCE_KEY) {
                     basic_node_type key_node = std::move(*mp_current_node);
-                    delete mp_current_node;
                     mp_current_node = m_context_stack.back().p_node;
                     m_flow_token_state = flow_token_state_t::NEEDS_VALUE_OR_SUFFIX;
 
@@ -830,9 +838,8 @@ private:
                     break;
                 case context_state_t::BLOCK_MAPPING:
                 case context_state_t::FLOW_MAPPING:
-                    // heap-allocated node will be freed in handling the corresponding MAPPING_FLOW_END event.
                     m_context_stack.emplace_back(
-                        line, indent, context_state_t::FLOW_MAPPING_KEY, new basic_node_type(node_type::MAPPING));
+                        line, indent, context_state_t::FLOW_MAPPING_KEY, new_key_node(node_type::MAPPING));
                     mp_current_node = m_context_stack.back().p_node;
                     break;
                 default: {
@@ -893,7 +900,6 @@ private:
 
                 if (!m_context_stack.empty() && state == context_state_t::FLOW_MAPPING_KEY) {
                     basic_node_type key_node = std::move(*mp_current_node);
-                    delete mp_current_node;
                     mp_current_node = m_context_stack.back().p_node;
                     m_flow_token_state = flow_token_state_t::NEEDS_VALUE_OR_SUFFIX;
 
@@ -926,7 +932,6 @@ private:
                 continue;
             }
             case lexical_token_t::VALUE_SEPARATOR:
-                FK_YAML_ASSERT(m_flow_context_depth > 0);
                 if FK_YAML_UNLIKELY (m_flow_token_state != flow_token_state_t::NEEDS_SEPARATOR_OR_SUFFIX) {
                     throw parse_error("invalid value separator is found.", line, indent);
                 }
@@ -949,6 +954,16 @@ private:
                     throw parse_error("The given anchor name must appear prior to the alias node.", line, indent);
                 }
 
+                // A node which contains itself cannot be represented.
+                const bool is_recursive =
+                    std::any_of(m_context_stack.begin(), m_context_stack.end(), [&](const parse_context& c) {
+                        return c.p_node && c.p_node->is_anchor() && c.p_node->m_prop.anchor == token_str &&
+                               detail::node_attr_bits::get_anchor_offset(c.p_node->m_attrs) == anchor_counts - 1;
+                    });
+                if FK_YAML_UNLIKELY (is_recursive) {
+                    throw parse_error("An alias node must not refer to a node which contains it.", line, indent);
+                }
+
                 basic_node_type node {};
                 node.m_attrs |= detail::node_attr_bits::alias_bit;
                 node.m_prop.anchor = std::move(token_str);
@@ -1135,8 +1150,6 @@ private:
     /// @param node_value A rvalue basic_node_type object to be assigned to the current node.
     void assign_node_value(basic_node_type&& node_value, const uint32_t line, const uint32_t indent) {
         if (mp_current_node->is_sequence()) {
-            FK_YAML_ASSERT(m_flow_context_depth > 0);
-
             if FK_YAML_UNLIKELY (m_flow_token_state != flow_token_state_t::NEEDS_VALUE_OR_SUFFIX) {
                 // Flow sequence entries are not allowed to be empty.
                 // ```yaml
@@ -1259,14 +1272,20 @@ private:
         line = lexer.get_lines_processed();
     }
 
+    /// @brief Creates a node for a mapping key which is not a plain scalar. It lives until the end of the document.
+    /// @param type The type of the node.
+    /// @return A pointer to the created node.
+    basic_node_type* new_key_node(node_type type) {
+        m_key_nodes.emplace_back(type);
+        return &m_key_nodes.back();
+    }
+
     /// @brief Pops parent contexts to a block mapping with the given indentation.
     /// @tparam Pred Functor type to test parent contexts.
     /// @param line The current line count.
     /// @param indent The indentation level of the target parent block mapping.
     template <typename Pred>
     void pop_to_parent_node(uint32_t line, uint32_t indent, Pred&& pred) {
-        FK_YAML_ASSERT(!m_context_stack.empty());
-
         // LCOV_EXCL_START
         auto itr = std::find_if(m_context_stack.rbegin(), m_context_stack.rend(), std::forward<Pred>(pred));
         // LCOV_EXCL_STOP
@@ -1316,7 +1335,9 @@ private:
     /// The currently focused YAML node.
     basic_node_type* mp_current_node {nullptr};
     /// The stack of parse contexts.
-    std::deque<parse_context> m_context_stack {};
+    context_stack m_context_stack {};
+    /// The nodes under construction which are mapping keys.
+    std::deque<basic_node_type> m_key_nodes {};
     /// The current depth of flow contexts.
     uint32_t m_flow_context_depth {0};
     /// The set of YAML directives.
-- 
2.43.0


From 97a8f099d6e6c3d7ae56a8da21a738224a2baa0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:59 +0000
Subject: [PATCH 088/106] fix: from_json misreads numbers whose digits begin
 with 18446744073709551615

---
 src_json_interface/rapidjson/internal/strtod.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_json_interface/rapidjson/internal/strtod.h b/src_json_interface/rapidjson/internal/strtod.h
index 55f0e38..57c8418 100644
--- a/src_json_interface/rapidjson/internal/strtod.h
+++ b/src_json_interface/rapidjson/internal/strtod.h
@@ -134,7 +134,7 @@ inline bool StrtodDiyFp(const Ch* decimals, int dLen, int dExp, double* result)
     int i = 0;   // 2^64 - 1 = 18446744073709551615, 1844674407370955161 = 0x1999999999999999    
     for (; i < dLen; i++) {
         if (significand  >  RAPIDJSON_UINT64_C2(0x19999999, 0x99999999) ||
-            (significand == RAPIDJSON_UINT64_C2(0x19999999, 0x99999999) && decimals[i] > Ch('5')))
+            (significand == RAPIDJSON_UINT64_C2(0x19999999, 0x99999999) && decimals[i] >= Ch('5')))
             break;
         significand = significand * 10u + static_cast<unsigned>(decimals[i] - Ch('0'));
     }
-- 
2.43.0


From 4b46739348fb1df4b2b4b02993311cd663bae4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:06 +0000
Subject: [PATCH 089/106] fix: GC_fill_for_test keeps old content and leaves
 the head in destroyed elements

---
 src/GenericContainerInterface_C.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GenericContainerInterface_C.cc b/src/GenericContainerInterface_C.cc
index 40c75e0..81958bc 100755
--- a/src/GenericContainerInterface_C.cc
+++ b/src/GenericContainerInterface_C.cc
@@ -271,6 +271,8 @@ GC_fill_for_test( char const id[] ) {
   GenericContainer & gc =
      *static_cast<GenericContainer*>(gc_active->mem_ptr());
 
+  gc_active->reset(); // the head must not point into the replaced content
+  gc.clear();
   vector_type & v = gc.set_vector();
   v.resize(11);
   v[0] = 1;
-- 
2.43.0


From 86a5d429a1e8d75cb109d787709d6029591ddb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:10 +0000
Subject: [PATCH 090/106] fix: reading a Lua table that contains itself
 overflows the C++ stack

---
 .../GenericContainerInterface_lua.cc          | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src_lua_interface/GenericContainerInterface_lua.cc b/src_lua_interface/GenericContainerInterface_lua.cc
index be2782c..73ee370 100644
--- a/src_lua_interface/GenericContainerInterface_lua.cc
+++ b/src_lua_interface/GenericContainerInterface_lua.cc
@@ -100,9 +100,12 @@ namespace GC_namespace {
   //               |_____|    |_____|
   */
 
+  // tables nested deeper (also tables that contain themselves) are refused
+  static int const max_table_depth{2000};
+
   static
   void
-  lua_table_to_GC( lua_State * L, GenericContainer & gc );
+  lua_table_to_GC( lua_State * L, GenericContainer & gc, int depth = 0 );
 
   // restore the top of the Lua stack when leaving the scope, also in case of exception
   class LuaStackGuard {
@@ -125,7 +128,7 @@ namespace GC_namespace {
 
   static
   void
-  push_vec_element( lua_State * L, GenericContainer & gc ) {
+  push_vec_element( lua_State * L, GenericContainer & gc, int const depth ) {
     // assegna il valore
     // index start from 1 in LUA
     lua_Integer const key{ lua_tointeger(L, -2) };
@@ -170,7 +173,7 @@ namespace GC_namespace {
       break;
     case LUA_TTABLE:
       if ( gc.get_type() != GC_type::NOTYPE ) gc.promote_to_vector(); // mixed types
-      lua_table_to_GC( L, gc[idx] );
+      lua_table_to_GC( L, gc[idx], depth+1 );
       break;
     }
   }
@@ -179,7 +182,7 @@ namespace GC_namespace {
 
   static
   void
-  push_hash_element( lua_State * L, GenericContainer & gc ) {
+  push_hash_element( lua_State * L, GenericContainer & gc, int const depth ) {
     // assegna il valore
     GC_ASSERT(
       gc.get_type() == GC_type::NOTYPE || gc.get_type() == GC_type::MAP,
@@ -203,7 +206,7 @@ namespace GC_namespace {
         gc[key].set_string(get_lua_string(L, -1));
         break;
       case LUA_TTABLE:
-        lua_table_to_GC( L, gc[key] );
+        lua_table_to_GC( L, gc[key], depth+1 );
         break;
     }
   }
@@ -212,18 +215,19 @@ namespace GC_namespace {
 
   static
   void
-  lua_table_to_GC( lua_State * L, GenericContainer & gc ) {
+  lua_table_to_GC( lua_State * L, GenericContainer & gc, int const depth ) {
     // ---
+    GC_ASSERT( depth < max_table_depth, "lua_table_to_GC, too many nested tables" )
     GC_ASSERT( lua_checkstack( L, 4 ), "lua_table_to_GC, Lua stack overflow" )
     lua_pushnil(L); // first key
     // ---
     while ( lua_next(L,-2) != 0 ) {
       switch( lua_type(L, -2) ) {
         case LUA_TNUMBER:
-          push_vec_element( L, gc );
+          push_vec_element( L, gc, depth );
           break;
         case LUA_TSTRING:
-          push_hash_element( L, gc );
+          push_hash_element( L, gc, depth );
           break;
       }
       lua_pop(L, 1);  // removes `value'; keeps `key' for next iteration
-- 
2.43.0


From ce1dfa1602e46f76afca8e95817af123e0717f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:30 +0000
Subject: [PATCH 091/106] fix: errors raised by metamethods of the Lua globals
 abort the process

---
 .../GenericContainerInterface_lua.cc          | 45 ++++++++++++++++---
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/src_lua_interface/GenericContainerInterface_lua.cc b/src_lua_interface/GenericContainerInterface_lua.cc
index 73ee370..929bb71 100644
--- a/src_lua_interface/GenericContainerInterface_lua.cc
+++ b/src_lua_interface/GenericContainerInterface_lua.cc
@@ -375,6 +375,43 @@ namespace GC_namespace {
     }
   }
 
+  // access to globals may run metamethods that raise errors, run them protected
+
+  static
+  int
+  protected_gettable( lua_State * L ) { lua_gettable( L, 1 ); return 1; }
+
+  static
+  int
+  protected_settable( lua_State * L ) { lua_settable( L, 1 ); return 0; }
+
+  static
+  void
+  get_global( lua_State * L, char const name[] ) {
+    GC_ASSERT( lua_checkstack( L, 4 ), "Lua stack overflow" )
+    lua_pushcfunction( L, protected_gettable );
+    lua_pushglobaltable( L );
+    lua_pushstring( L, name );
+    GC_ASSERT(
+      lua_pcall( L, 2, 1, 0 ) == LUA_OK,
+      "cannot read the Lua global variable: '" << name << "'"
+    )
+  }
+
+  static
+  void
+  set_global( lua_State * L, char const name[], GenericContainer const & gc ) {
+    GC_ASSERT( lua_checkstack( L, 4 ), "Lua stack overflow" )
+    lua_pushcfunction( L, protected_settable );
+    lua_pushglobaltable( L );
+    lua_pushstring( L, name );
+    GC_to_lua( L, gc );
+    GC_ASSERT(
+      lua_pcall( L, 3, 0, 0 ) == LUA_OK,
+      "cannot set the Lua global variable: '" << name << "'"
+    )
+  }
+
   /*
   //   _                ___       _                           _
   //  | |   _   _  __ _|_ _|_ __ | |_ ___ _ __ _ __  _ __ ___| |_ ___ _ __
@@ -450,7 +487,7 @@ namespace GC_namespace {
 
     // push functions and arguments
     LuaStackGuard const guard{L};
-    lua_getglobal( L, fname.data() );  // function to be called
+    get_global( L, fname.data() );  // function to be called
     GC_to_lua( L, args );
 
     /* do the call (1 arguments, 1 result) */
@@ -478,8 +515,7 @@ namespace GC_namespace {
     )
 
     LuaStackGuard const guard{L};
-    GC_ASSERT( lua_checkstack( L, 4 ), "global_to_GC, Lua stack overflow" )
-    lua_getglobal( L, global_var );
+    get_global( L, global_var );
     GC_ASSERT(
       !lua_isnil(L,-1),
       "LuaInterpreter::global_to_GC(...) cannot find global variable: '" <<
@@ -526,8 +562,7 @@ namespace GC_namespace {
   ) {
     lua_State *& L = *(reinterpret_cast<lua_State**>(&void_L));
     LuaStackGuard const guard{L};
-    GC_to_lua( L, gc );
-    lua_setglobal( L, global_var );
+    set_global( L, global_var, gc );
   }
 
   // -----------------------------------------------------------------------------
-- 
2.43.0


From 8e2c05f3385da66fa76450f7f1f2d3160c90f2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:36 +0000
Subject: [PATCH 092/106] fix: compare_content reports different contents as
 equal when memory runs out

---
 src/GenericContainer.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/GenericContainer.cc b/src/GenericContainer.cc
index 8433003..92a2ce8 100755
--- a/src/GenericContainer.cc
+++ b/src/GenericContainer.cc
@@ -421,6 +421,7 @@ namespace GC_namespace {
   string
   compare_vector( string_view const who, vector<TYPE> const * A, vector<TYPE> const * B ) {
     ostringstream data;
+    data.exceptions( std::ios_base::badbit ); // an empty message means equal, do not lose it
     if ( A->size() == B->size() ) {
       // controllo valori
       auto it1 = A->begin();
@@ -445,6 +446,7 @@ namespace GC_namespace {
   string
   compare_matrix( string_view const who, mat_type<TYPE> const * A, mat_type<TYPE> const * B ) {
     ostringstream data;
+    data.exceptions( std::ios_base::badbit ); // an empty message means equal, do not lose it
     if ( A->num_rows() == B->num_rows() && A->num_cols() == B->num_cols() ) {
       for ( unsigned i{0}; i < A->num_rows(); ++i ) {
         for ( unsigned j{0}; j < A->num_cols(); ++j ) {
@@ -468,6 +470,7 @@ namespace GC_namespace {
   string
   GenericContainer::compare_content( GenericContainer const & gc, string_view from ) const {
     ostringstream data;
+    data.exceptions( std::ios_base::badbit ); // an empty message means equal, do not lose it
     if ( m_data_type != gc.m_data_type ) {
       data << from
            << "different type: "
-- 
2.43.0


From f80ff5491279e874694f733932beb089189f95e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:26 +0000
Subject: [PATCH 093/106] fix: from_toml aborts on malformed dates with time

---
 src_toml_interface/toml++/impl/parser.inl | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src_toml_interface/toml++/impl/parser.inl b/src_toml_interface/toml++/impl/parser.inl
index ffd00c9..7745bb0 100644
--- a/src_toml_interface/toml++/impl/parser.inl
+++ b/src_toml_interface/toml++/impl/parser.inl
@@ -2443,6 +2443,8 @@ TOML_IMPL_NAMESPACE_START
 			advance_and_return_if_error_or_eof({});
 
 			// "HH:MM:SS.FFFFFFFFF"
+			if (!is_decimal_digit(*cp))
+				set_error_and_return_default("expected 2-digit hour, saw '"sv, to_sv(*cp), "'"sv);
 			auto time = parse_time(true);
 			return_if_error({});
 
@@ -2630,9 +2632,8 @@ TOML_IMPL_NAMESPACE_START
 				bool eof_while_scanning = false;
 				const auto scan			= [&]() noexcept(!TOML_COMPILER_HAS_EXCEPTIONS)
 				{
-					if (is_eof())
+					if (is_eof() || is_value_terminator(*cp))
 						return;
-					TOML_ASSERT_ASSUME(!is_value_terminator(*cp));
 
 					do
 					{
@@ -2704,6 +2705,7 @@ TOML_IMPL_NAMESPACE_START
 
 				// force further scanning if this could have been a date-time with a space instead of a T
 				if (char_count == 10u									 //
+					&& advance_count == char_count						 // no '_' was skipped
 					&& (traits | begins_zero) == (bzero_msk | has_minus) //
 					&& chars[4] == U'-'									 //
 					&& chars[7] == U'-'									 //
-- 
2.43.0


From f27587c0d1d425c0742b00f896df36dd74c4c445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:18 +0000
Subject: [PATCH 094/106] fix: tables with columns of unequal length are
 written truncated

---
 src/GenericContainerTables.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/GenericContainerTables.cc b/src/GenericContainerTables.cc
index 05fc458..e4a5b9e 100755
--- a/src/GenericContainerTables.cc
+++ b/src/GenericContainerTables.cc
@@ -42,6 +42,11 @@ namespace GC_namespace {
     if ( ncol == 0 ) return;
     GC_ASSERT( data.size() >= ncol, "write_table, found " << data.size() << " columns of data for " << ncol << " headers" );
     auto const nrow{ (data[0].get_num_elements()) };
+    for ( unsigned icol{1}; icol < ncol; ++icol )
+      GC_ASSERT(
+        data[icol].get_num_elements() == nrow,
+        "write_table, column " << icol << " has " << data[icol].get_num_elements() << " rows, expected " << nrow
+      );
 
     stream << headers[0];
     for ( unsigned icol{1}; icol < ncol; ++icol )
@@ -94,6 +99,11 @@ namespace GC_namespace {
     if ( ncol == 0 ) return;
     GC_ASSERT( data.size() >= ncol, "write_table, found " << data.size() << " columns of data for " << ncol << " headers" );
     auto const nrow{ (data[0].get_num_elements()) };
+    for ( unsigned icol{1}; icol < ncol; ++icol )
+      GC_ASSERT(
+        data[icol].get_num_elements() == nrow,
+        "write_table, column " << icol << " has " << data[icol].get_num_elements() << " rows, expected " << nrow
+      );
 
     // calcolo lunghezza massima stringhe headers
     unsigned ml { 0 };
-- 
2.43.0


From 25ad2f4a4d5d23a728ead0b20bb0b92fc137e4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:59 +0000
Subject: [PATCH 095/106] fix: do_file hides a Lua error whose value is nil

---
 src_lua_interface/GenericContainerInterface_lua.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src_lua_interface/GenericContainerInterface_lua.cc b/src_lua_interface/GenericContainerInterface_lua.cc
index 929bb71..bfb187a 100644
--- a/src_lua_interface/GenericContainerInterface_lua.cc
+++ b/src_lua_interface/GenericContainerInterface_lua.cc
@@ -452,10 +452,10 @@ namespace GC_namespace {
     )
     LuaStackGuard const guard{L};
     if ( luaL_loadfile(L, filename) || lua_pcall(L, 0, 0, 0)  ) {
-      GC_ASSERT(
-        lua_isnil(L,-1),
+      char const * err{ lua_tostring(L, -1) }; // nullptr if the error is not a text
+      GC_DO_ERROR(
         "In LuaInterpreter::do_file('" << filename <<
-        "')\n" << lua_tostring(L, -1)
+        "')\n" << ( err == nullptr ? "unknown error" : err )
       )
     }
   }
-- 
2.43.0


From 28ddc49f3ebcc277557b1d10a3d38f12e36e2fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:13 +0000
Subject: [PATCH 096/106] fix: GC_get_next_key does not tell the end of the
 keys from an empty key

The Ruby interface reads keys until it gets nil and never terminated on a map.
---
 src/GenericContainerInterface_C.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/GenericContainerInterface_C.cc b/src/GenericContainerInterface_C.cc
index 81958bc..fc86cda 100755
--- a/src/GenericContainerInterface_C.cc
+++ b/src/GenericContainerInterface_C.cc
@@ -82,7 +82,7 @@ namespace GC_namespace {
     int push_map_position( char const pos[] );
     int init_map_key();
 
-    string_view next_map_key();
+    char const * next_map_key();
 
     int reset();
 
@@ -176,10 +176,10 @@ namespace GC_namespace {
     return ok;
   }
 
-  string_view
+  char const *
   GenericContainerExplorer::next_map_key() {
-    if ( map_pos < map_keys.size() ) return map_keys[map_pos++];
-    return "";
+    if ( map_pos < map_keys.size() ) return map_keys[map_pos++].data();
+    return nullptr; // no more keys ("" is a valid key)
   }
 
   int
@@ -811,7 +811,7 @@ GC_init_map_key() {
 char const *
 GC_get_next_key( void ) {
   if ( gc_active == nullptr ) return nullptr;
-  return gc_active->next_map_key().data();
+  return gc_active->next_map_key();
 }
 
 } // close extern "C"
-- 
2.43.0


From 63c2cec187c2f0603c45be63ade4d6c4afd5bf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:13 +0000
Subject: [PATCH 097/106] fix: Ruby interface refers to Fixnum, removed in Ruby
 3.2

---
 src_ruby_interface/GenericContainer_ffi.rb | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src_ruby_interface/GenericContainer_ffi.rb b/src_ruby_interface/GenericContainer_ffi.rb
index 649c829..fa36312 100644
--- a/src_ruby_interface/GenericContainer_ffi.rb
+++ b/src_ruby_interface/GenericContainer_ffi.rb
@@ -292,7 +292,7 @@ module GenericContainer
     if vec[0].kind_of?(TrueClass) or vec[0].kind_of?(FalseClass) then
       ok = self.GC_set_empty_vector_of_bool
       raise RuntimeError, @error_messages[ok] unless ok == 0
-    elsif vec[0].kind_of?(Fixnum) then
+    elsif vec[0].kind_of?(Integer) then
       ok = self.GC_set_empty_vector_of_int
       raise RuntimeError, @error_messages[ok] unless ok == 0
     elsif vec[0].kind_of?(Float) then
@@ -316,7 +316,7 @@ module GenericContainer
       elsif var.kind_of?(FalseClass) then
         ok = self.GC_push_bool 0
         raise RuntimeError, @error_messages[ok] unless ok == 0
-      elsif var.kind_of?(Fixnum) then
+      elsif var.kind_of?(Integer) then
         ok = self.GC_push_int var
         raise RuntimeError, @error_messages[ok] unless ok == 0
       elsif var.kind_of?(Float) then
@@ -365,7 +365,7 @@ module GenericContainer
     elsif var.kind_of?(FalseClass) then
       ok = self.GC_set_bool 0
       raise RuntimeError, @error_messages[ok] unless ok == 0
-    elsif var.kind_of?(Fixnum) then
+    elsif var.kind_of?(Integer) then
       ok = self.GC_set_int var
       raise RuntimeError, @error_messages[ok] unless ok == 0
     elsif var.kind_of?(Float) then
-- 
2.43.0


From 22c5c467aaf23dd9ec55275ac5e74c808aeab864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:13 +0000
Subject: [PATCH 098/106] fix: Ruby interface works at a stale position after
 an operation that failed

---
 src_ruby_interface/GenericContainer_ffi.rb | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src_ruby_interface/GenericContainer_ffi.rb b/src_ruby_interface/GenericContainer_ffi.rb
index fa36312..d6577d2 100644
--- a/src_ruby_interface/GenericContainer_ffi.rb
+++ b/src_ruby_interface/GenericContainer_ffi.rb
@@ -412,6 +412,7 @@ module GenericContainer
     def load(data)
       ok = ::GenericContainer.GC_select @id
       raise RuntimeError, @error_messages[ok] unless ok == 0
+      ::GenericContainer.GC_reset_head # a failed operation may have left the head inside the data
       ::GenericContainer.GC_from_hash data
     end
 
@@ -422,12 +423,14 @@ module GenericContainer
     def get_data
       ok = ::GenericContainer.GC_select @id
       raise RuntimeError, @error_messages[ok] unless ok == 0
+      ::GenericContainer.GC_reset_head # a failed operation may have left the head inside the data
       return ::GenericContainer.GC_to_hash
     end
 
     def dump
       ok = ::GenericContainer.GC_select @id
       raise RuntimeError, @error_messages[ok] unless ok == 0
+      ::GenericContainer.GC_reset_head # a failed operation may have left the head inside the data
       ::GenericContainer.GC_dump
     end
 
-- 
2.43.0


From bcb589397d93760bce5c64c423296874238e1250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:13 +0000
Subject: [PATCH 099/106] fix: Ruby containers are never released

The finalizer kept a reference to the object it waits for.
---
 src_ruby_interface/GenericContainer_ffi.rb | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src_ruby_interface/GenericContainer_ffi.rb b/src_ruby_interface/GenericContainer_ffi.rb
index d6577d2..fae1477 100644
--- a/src_ruby_interface/GenericContainer_ffi.rb
+++ b/src_ruby_interface/GenericContainer_ffi.rb
@@ -401,10 +401,15 @@ module GenericContainer
     def initialize
       @id = self.__id__.to_s
       ::GenericContainer.GC_new @id
-      ObjectSpace.define_finalizer(self, proc { ::GenericContainer.GC_delete @id })
+      ObjectSpace.define_finalizer(self, self.class.release(@id))
       return @id
     end
 
+    # made outside `initialize`: the finalizer must not refer to the object, or it is never collected
+    def self.release(id)
+      proc { ::GenericContainer.GC_delete id }
+    end
+
     def fill_for_test
       ::GenericContainer.GC_fill_for_test @id
     end
-- 
2.43.0


From 779d4faaef5448aa4f37130f6ca5e3c8ff18b097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:13 +0000
Subject: [PATCH 100/106] fix: Ruby arrays that mix strings and other data are
 refused when a string is first

---
 src_ruby_interface/GenericContainer_ffi.rb | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src_ruby_interface/GenericContainer_ffi.rb b/src_ruby_interface/GenericContainer_ffi.rb
index fae1477..0802336 100644
--- a/src_ruby_interface/GenericContainer_ffi.rb
+++ b/src_ruby_interface/GenericContainer_ffi.rb
@@ -288,6 +288,13 @@ module GenericContainer
   #             |_____|                     |_____|
   #
   def self.addToVector(vec)
+    # a vector of strings can not grow with other kinds of data
+    if vec[0].kind_of?(String) or vec[0].kind_of?(Symbol) then
+      unless vec.all? { |v| v.kind_of?(String) or v.kind_of?(Symbol) } then
+        self.fromVector vec
+        return;
+      end
+    end
     # empty vectors
     if vec[0].kind_of?(TrueClass) or vec[0].kind_of?(FalseClass) then
       ok = self.GC_set_empty_vector_of_bool
-- 
2.43.0


From 72203869c682ee321f95a0be07c4963d2c9ae339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:13 +0000
Subject: [PATCH 101/106] fix: nil elements of a Ruby array keep the old
 contents

---
 src_ruby_interface/GenericContainer_ffi.rb | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src_ruby_interface/GenericContainer_ffi.rb b/src_ruby_interface/GenericContainer_ffi.rb
index 0802336..ea90964 100644
--- a/src_ruby_interface/GenericContainer_ffi.rb
+++ b/src_ruby_interface/GenericContainer_ffi.rb
@@ -344,6 +344,7 @@ module GenericContainer
 
   def self.fromVector(var)
     nelem = var.length
+    self.GC_set_empty_vector # do not keep elements of the old contents
     self.GC_set_vector nelem
     (0..nelem-1).each do |i|
       ok = self.GC_push_vector_position i
-- 
2.43.0


From 522485d6339d48ec1c23a4e32cc6fac180fc474f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:16 +0000
Subject: [PATCH 102/106] fix: conversion of an empty map to MATLAB reads
 front() of an empty vector

---
 src_matlab_interface/GenericContainerInterface_matlab.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_matlab_interface/GenericContainerInterface_matlab.cc b/src_matlab_interface/GenericContainerInterface_matlab.cc
index 4e6137c..01ea8aa 100644
--- a/src_matlab_interface/GenericContainerInterface_matlab.cc
+++ b/src_matlab_interface/GenericContainerInterface_matlab.cc
@@ -639,7 +639,7 @@ namespace GC_namespace {
         for ( map_type::const_iterator im = mappa.begin(); im != mappa.end(); ++im )
           fieldnames.push_back(im->first.data());
 
-        mx = mxCreateStructMatrix(1,1,nfield,&fieldnames.front());
+        mx = mxCreateStructMatrix(1,1,nfield,fieldnames.data());
 
         int ifield = 0;
         for ( map_type::const_iterator im = mappa.begin(); im != mappa.end(); ++im, ++ifield ) {
-- 
2.43.0


From 32a6383ca3aef0ded14f559aa6448c6acc49eb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:17 +0000
Subject: [PATCH 103/106] fix: logical sparse matrices from MATLAB are read
 beyond their data

---
 src_matlab_interface/GenericContainerInterface_matlab.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src_matlab_interface/GenericContainerInterface_matlab.cc b/src_matlab_interface/GenericContainerInterface_matlab.cc
index 01ea8aa..fe11274 100644
--- a/src_matlab_interface/GenericContainerInterface_matlab.cc
+++ b/src_matlab_interface/GenericContainerInterface_matlab.cc
@@ -251,6 +251,13 @@ namespace GC_namespace {
     for ( unsigned i = 0; i <= nc; ++i ) jc[i] = jcs[i];
     for ( unsigned i = 0; i < nnz; ++i ) ir[i] = irs[i];
 
+    if ( mxIsLogical( mx ) ) { // the entries are not real numbers
+      mxLogical const * sl = mxGetLogicals(mx);
+      vec_real_type & val = gc["values"].set_vec_real( nnz );
+      for ( unsigned i = 0; i < nnz; ++i ) val[i] = sl[i] ? 1 : 0;
+      return;
+    }
+
     real_type * sr = mxGetPr(mx);
     if ( mxIsComplex( mx ) ) {
       real_type * si = mxGetPi(mx);
-- 
2.43.0


From 122f2139db48f863fdf4b1b46a5b80f08f7f67e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:17 +0000
Subject: [PATCH 104/106] fix: to_mxArray of a string_view reads beyond its end

---
 src_matlab_interface/GenericContainerInterface_matlab.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_matlab_interface/GenericContainerInterface_matlab.cc b/src_matlab_interface/GenericContainerInterface_matlab.cc
index fe11274..aafd27a 100644
--- a/src_matlab_interface/GenericContainerInterface_matlab.cc
+++ b/src_matlab_interface/GenericContainerInterface_matlab.cc
@@ -375,7 +375,7 @@ namespace GC_namespace {
 
   void
   to_mxArray( string_view val, mxArray * & mx ) {
-    mx = mxCreateString( val.data() );
+    mx = mxCreateString( string(val).data() ); // a string_view is not null-terminated
   }
 
   void
-- 
2.43.0


From e4d843691faf0f84dd1c608621a6304927571129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:17 +0000
Subject: [PATCH 105/106] fix: MATLAB uint32 values above the int limit become
 negative

---
 src_matlab_interface/GenericContainerInterface_matlab.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src_matlab_interface/GenericContainerInterface_matlab.cc b/src_matlab_interface/GenericContainerInterface_matlab.cc
index aafd27a..07b6c2c 100644
--- a/src_matlab_interface/GenericContainerInterface_matlab.cc
+++ b/src_matlab_interface/GenericContainerInterface_matlab.cc
@@ -325,7 +325,7 @@ namespace GC_namespace {
           case mxINT16_CLASS:   mx_to_vec_int<int16_t>(mx,gc);   break;
           case mxUINT16_CLASS:  mx_to_vec_int<uint16_t>(mx,gc);  break;
           case mxINT32_CLASS:   mx_to_vec_int<int32_t>(mx,gc);   break;
-          case mxUINT32_CLASS:  mx_to_vec_int<uint32_t>(mx,gc);  break;
+          case mxUINT32_CLASS:  mx_to_vec_long<uint32_t>(mx,gc); break;
           case mxINT64_CLASS:   mx_to_vec_long<int64_t>(mx,gc);  break;
           case mxUINT64_CLASS:  mx_to_vec_long<uint64_t>(mx,gc); break;
           case mxSINGLE_CLASS:  mx_to_vec_real<float>(mx,gc);    break;
-- 
2.43.0


From d0ec49abd19a8dfb6eba1ba4d48d7e196e54421d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:17 +0000
Subject: [PATCH 106/106] fix: MATLAB strings with multibyte characters are
 truncated

---
 src_matlab_interface/GenericContainerInterface_matlab.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src_matlab_interface/GenericContainerInterface_matlab.cc b/src_matlab_interface/GenericContainerInterface_matlab.cc
index 07b6c2c..2320a1b 100644
--- a/src_matlab_interface/GenericContainerInterface_matlab.cc
+++ b/src_matlab_interface/GenericContainerInterface_matlab.cc
@@ -294,11 +294,10 @@ namespace GC_namespace {
       string_class[0] = const_cast<mxArray*>(mx);
       mexCallMATLAB(1, char_array, 1, string_class, "char");
       // Parse the char array to create an std::string
-      int buflen = mxGetN(char_array[0])*sizeof(mxChar)+1;
-      char* buf = new char[buflen];
-      mxGetString(char_array[0],buf,buflen);
+      // (mxArrayToString sizes the buffer, a character may take more than sizeof(mxChar) bytes)
+      char * buf = mxArrayToString(char_array[0]);
       gc = buf;
-      delete [] buf;
+      mxFree(buf);
     } else {
       if ( mxIsComplex(mx) ) {
         switch (category)  {
-- 
2.43.0

