From 283e84adeed94f8182d0ad8bf1841979b9fd5b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 001/117] fix: bounds check before reading the lead head in
 method::methclass

The hunt-bell and working-bell scans read one element past the end of the
row before testing the index, for any method with no hunt bell (or whose
lead head is rounds).
---
 ringing/method.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ringing/method.cpp b/ringing/method.cpp
index b3238ef..8dc0b49 100644
--- a/ringing/method.cpp
+++ b/ringing/method.cpp
@@ -304,13 +304,13 @@ int method::methclass(int year) const
 
   // Set hb to be the first hunt bell, or hb=n if there is none
   bell hb;
-  for (hb = 0; lhr[hb] != hb && hb < n; ++hb)
+  for (hb = 0; hb < n && lhr[hb] != hb; ++hb)
     ;
   
   // Set wb to be the size of the first set of working bells    
   int wb = 0;
   { int i;
-    for (i = 0; lhr[i] == i && i < n; ++i)
+    for (i = 0; i < n && lhr[i] == i; ++i)
       ;
     if (i < n) 
       wb = lhr.cycle_size(i);
-- 
2.43.0


From e52b1470a5fb9e3b7d01d73c8b55f91fd77ad06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 002/117] fix: skip the byte order mark again when a litelib
 file is rewound

begin() seeks to the start of the file, so the byte order mark that the
constructor skipped was read as part of the first place notation.
---
 ringing/litelib.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ringing/litelib.cpp b/ringing/litelib.cpp
index 8ed37b6..8a11c41 100644
--- a/ringing/litelib.cpp
+++ b/ringing/litelib.cpp
@@ -215,6 +215,7 @@ library_base::const_iterator litelib::impl::begin() const
   if (f_owner) {
     f_owner->clear();
     f_owner->seekg(0, ios::beg);
+    const_cast< litelib::impl * >(this)->skip_bom();
   }
   return const_iterator(const_cast< litelib::impl * >(this),
                         new entry_type(b, flags));
-- 
2.43.0


From a5f81ffb086236539e5c58fbcc9fa7c0a1127d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 003/117] fix: strip class names from litelib titles correctly

The base name of a Treble Bob or Treble Place method kept the word Treble,
that of a little hybrid kept Little, a class or stage name also occurring
earlier in the title stopped the suffix being removed, and trimming an empty
name read before its start.
---
 ringing/litelib.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/ringing/litelib.cpp b/ringing/litelib.cpp
index 8a11c41..a9d401c 100644
--- a/ringing/litelib.cpp
+++ b/ringing/litelib.cpp
@@ -135,14 +135,15 @@ string litelib::impl::entry_type::name() const
 static void trim_trailing_whitespace( string &line )
 {
   string::iterator b( line.begin() ), j( line.end() );
-  while ( j-1 != b && isspace(*(j-1)) ) --j;
+  while ( j != b && isspace(*(j-1)) ) --j;
   line = string( b, j );
 }
 
 static bool remove_suffix( string& n, string const& suffix )
 {
-  string::size_type i = n.find(suffix);
-  if ( i != string::npos && i == n.length() - suffix.length() ) {
+  string::size_type i = n.rfind(suffix);
+  if ( !suffix.empty() && i != string::npos 
+       && i + suffix.length() == n.length() ) {
     n.erase(i); trim_trailing_whitespace(n);
     return true;
   }
@@ -153,14 +154,18 @@ string litelib::impl::entry_type::base_name() const
 {
   string n = name();
   if ( remove_suffix( n, method::stagename(b) ) ) {
-    bool had_class = false;
+    // Treble Bob and Treble Place must be tried before Bob and Place.
+    bool had_class = 
+      remove_suffix( n, method::classname( method::M_TREBLE_BOB ) ) ||
+      remove_suffix( n, method::classname( method::M_TREBLE_PLACE ) );
     for ( method::m_class c = method::M_BOB; 
             c <= method::M_SLOW_COURSE && !had_class;  
             c = (method::m_class)( (int)c + 1 ) )
       if ( remove_suffix( n, method::classname(c) ) )
         had_class = true;
    
-    if (had_class) remove_suffix( n, method::classname( method::M_LITTLE ) );
+    // Little methods that are hybrids have no other class in their title.
+    remove_suffix( n, method::classname( method::M_LITTLE ) );
     remove_suffix( n, method::classname( method::M_DIFFERENTIAL ) );
   }
   return n;
-- 
2.43.0


From 9f1b4335a59deaf39cce397b4a0c4c0540fbc856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 004/117] fix: cclib hand-bell peal and wrapped reference
 number

has_facet for the first handbell peal tested the tower bell columns, and the
reference number of a method whose name wraps was read from the wrong line.
---
 ringing/cclib.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ringing/cclib.cpp b/ringing/cclib.cpp
index 3c1ed92..e3b311b 100644
--- a/ringing/cclib.cpp
+++ b/ringing/cclib.cpp
@@ -413,7 +413,7 @@ bool cclib::impl::entry_type::has_facet( const library_facet_id& id ) const
     return tower_date != string::npos && bool( get_facet( id ) );
   
   else if ( id == first_hand_peal::id ) 
-    return tower_end != string::npos && bool( get_facet( id ) );
+    return hand_date != string::npos && bool( get_facet( id ) );
 
   else if ( id == rw_ref::id ) 
     return rw_start != string::npos && bool( get_facet( id ) );
@@ -431,7 +431,9 @@ cclib::impl::entry_type::get_facet( const library_facet_id& id ) const
   shared_pointer< library_facet_base > result;
 
   if ( id == cclib::ref::id ) 
-    result.reset( new cclib::ref( atoi( linebuf.c_str() ) ) );
+    // If the name was wrapped, the number is on the first of the two lines.
+    result.reset( new cclib::ref
+      ( atoi( ( wrapped_name.empty() ? linebuf : wrapped_name ).c_str() ) ) );
 
   else if ( id == first_tower_peal::id ) {
     peal p( read_peal( tower_date, tower_place, tower_end ) );
-- 
2.43.0


From a9d15ceab5cc967b30950febd808b0f81882c129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:07 +0000
Subject: [PATCH 005/117] fix: base names in Central Council libraries

name() adds the class of the section, but base_name() did not remove it again,
so that the full title repeated it (Cambridge Surprise Surprise Minor).  A
class without a name (Hybrid, since 2019) left a trailing space, and once a
section of plain methods had been read all later sections were taken as plain.
---
 ringing/cclib.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ringing/cclib.cpp b/ringing/cclib.cpp
index e3b311b..87420c2 100644
--- a/ringing/cclib.cpp
+++ b/ringing/cclib.cpp
@@ -267,8 +267,8 @@ void cclib::impl::entry_type::parse_title()
     main_class = method::M_TREBLE_BOB;
   else {
     main_class = method::M_UNKNOWN;
-    plain = true;
   }
+  plain = main_class == method::M_UNKNOWN;
 
   // Read the stage name
   for ( int i=3; i<=22; ++i )
@@ -396,7 +396,7 @@ string cclib::impl::entry_type::name() const
                    == string::npos )
     n.append(" " + method::classname( method::M_DIFFERENTIAL ));
   string cl(" "); cl.append( method::classname(main_class) );
-  if (main_class && n.find(cl) == string::npos )
+  if (main_class && cl.size() > 1 && n.find(cl) == string::npos )
     n.append(cl);
   if (block && n.find(" Block") == string::npos )
     n.append(" Block");
@@ -500,6 +500,9 @@ string cclib::impl::entry_type::base_name() const
   if(block)
     maybe_strip_class( newname, "Block" );
 
+  if(main_class && method::classname( main_class ).size())
+    maybe_strip_class( newname, method::classname( main_class ) );
+
   if(plain)
     maybe_strip_class( newname, method::classname( method::M_BOB ) ) ||
       maybe_strip_class( newname, method::classname( method::M_PLACE ) ) ||
-- 
2.43.0


From 4f50439de08cb3ee91a6923f928bbc5751a71e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:47 +0000
Subject: [PATCH 006/117] fix: report a failure to save an XML document

---
 ringing/dom_gdome.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ringing/dom_gdome.cpp b/ringing/dom_gdome.cpp
index 9b195dd..2d847e9 100644
--- a/ringing/dom_gdome.cpp
+++ b/ringing/dom_gdome.cpp
@@ -107,6 +107,10 @@ public:
     if (errs) throw runtime_error("Unable to load XML document");
   }
 
+  void test_save( bool ok ) {
+    if (errs || !ok) throw runtime_error("Unable to save XML document");
+  }
+
  ~scoped_libxml2_err() { 
     xmlSetStructuredErrorFunc(NULL, NULL);
   }
@@ -178,9 +182,11 @@ void dom_document::finalise()
 {
   if ( pimpl->ofilename && pimpl->doc && pimpl->domimpl ) {
     assert( pimpl->ofilename->str );
-    gdome_di_saveDocToFile( pimpl->domimpl, pimpl->doc, 
-                            pimpl->ofilename->str,
-                            GDOME_SAVE_LIBXML_INDENT, &pimpl->exc );
+    scoped_libxml2_err do_throw_error;
+    bool ok = gdome_di_saveDocToFile( pimpl->domimpl, pimpl->doc, 
+                                      pimpl->ofilename->str,
+                                      GDOME_SAVE_LIBXML_INDENT, &pimpl->exc );
+    do_throw_error.test_save( ok );
 
     // Prevent multiple finalisation
     gdome_str_unref( pimpl->ofilename );
-- 
2.43.0


From bd266056f76b60f820fc3633a675df0397c34a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:47 +0000
Subject: [PATCH 007/117] fix: XML collection without any methodSet is empty

---
 ringing/xmllib.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ringing/xmllib.cpp b/ringing/xmllib.cpp
index 383033d..239a0ca 100644
--- a/ringing/xmllib.cpp
+++ b/ringing/xmllib.cpp
@@ -309,6 +309,7 @@ bool xmllib::impl::entry_type::readentry( library_base& lb )
   else if (cc_xml) {
     methset = next_sibling_element( doc->get_document().get_first_child(),
                                     "methodSet" );
+    if (!methset) return false;
     meth = methset.get_first_child();
   }
   else
-- 
2.43.0


From 500fa928e5d4e89dffe3eb64374c1a7058b3d61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:17 +0000
Subject: [PATCH 008/117] fix: read the first peals in XML collections from
 where they are

---
 ringing/xmllib.cpp | 56 ++++++++++++++++++++++++++++------------------
 1 file changed, 34 insertions(+), 22 deletions(-)

diff --git a/ringing/xmllib.cpp b/ringing/xmllib.cpp
index 239a0ca..f1cdbc1 100644
--- a/ringing/xmllib.cpp
+++ b/ringing/xmllib.cpp
@@ -104,8 +104,8 @@ class xmllib::impl::entry_type : public library_entry::impl
     next_sibling_element( dom_element start, const string& name) const;
   string get_field( dom_element const& parent, const string& elt_name ) const;
   string extract_text( const dom_element& e ) const;
-  peal get_peal( const string& elt_name ) const;
-  string facet_elt( const library_facet_id& id ) const;
+  peal get_peal( dom_element const& e ) const;
+  dom_element peal_elt( const library_facet_id& id ) const;
 
   virtual string name() const;
   virtual string base_name() const;
@@ -146,11 +146,8 @@ string xmllib::impl::entry_type::get_field( dom_element const& parent,
     return string();
 }
 
-peal xmllib::impl::entry_type::get_peal( const string& name ) const
+peal xmllib::impl::entry_type::get_peal( dom_element const& e ) const
 {
-  dom_element e = next_sibling_element( meth.get_first_child(), name );
-  if (!e) return peal();
-
   peal::date dt;
   if ( sscanf( get_field( e, "date" ).c_str(), "%d-%d-%d", 
 	       &dt.year, &dt.month, &dt.day ) != 3 )
@@ -158,8 +155,13 @@ peal xmllib::impl::entry_type::get_peal( const string& name ) const
 
   string loc;
 
-  dom_element l = next_sibling_element( meth.get_first_child(), "location" );
-  if ( l ) {
+  dom_element l = next_sibling_element( e.get_first_child(), "location" );
+  if ( l && !l.get_first_child() ) {
+    // This is how xmlout writes it.
+    loc = extract_text( l );
+    if ( loc.find_first_not_of( " \t\r\n" ) == string::npos ) loc = "";
+  }
+  else if ( l ) {
     // TODO: The peal object should know about the different 
     // parts of a location
     string tmp;
@@ -327,35 +329,45 @@ bool xmllib::impl::entry_type::readentry( library_base& lb )
   }
 }
 
-string xmllib::impl::entry_type::facet_elt( const library_facet_id& id ) const
+dom_element 
+xmllib::impl::entry_type::peal_elt( const library_facet_id& id ) const
 {
-  if ( id == first_tower_peal::id )
-    return cc_xml ? "firstTowerbellPeal" : "first-tower";
+  // The peals are either directly in the <method> or in a <performances>.
+  string direct, nested;
 
-  else if ( id == first_hand_peal::id ) 
-    return cc_xml ? "firstHandbellPeal" : "first-hand";
+  if ( id == first_tower_peal::id ) {
+    direct = cc_xml ? "firstTowerbellPeal" : "first-tower";
+    nested = cc_xml ? "firstTowerbellPeal" : "firsttower";
+  }
+  else if ( id == first_hand_peal::id ) {
+    direct = cc_xml ? "firstHandbellPeal" : "first-hand";
+    nested = cc_xml ? "firstHandbellPeal" : "firsthand";
+  }
+  else return dom_element();
 
-  else return string();
+  dom_element e = next_sibling_element( meth.get_first_child(), direct );
+  if (!e) {
+    e = next_sibling_element( meth.get_first_child(), "performances" );
+    if (e) e = next_sibling_element( e.get_first_child(), nested );
+  }
+  return e;
 }
 
 bool xmllib::impl::entry_type::has_facet( const library_facet_id& id ) const
 {
-  string elt( facet_elt(id) );
-  if (elt.size())
-    return next_sibling_element( meth.get_first_child(), elt );
-  else 
-    return false;
+  return peal_elt(id);
 }
 
 shared_pointer< library_facet_base >
 xmllib::impl::entry_type::get_facet( const library_facet_id& id ) const
 {
   shared_pointer< library_facet_base > result;
-  string elt( facet_elt(id) );
 
-  if (elt.size()) {
-    if ( next_sibling_element( meth.get_first_child(), elt ) ) 
+  if ( dom_element elt = peal_elt(id) ) {
+    if ( id == first_tower_peal::id )
       result.reset( new first_tower_peal( get_peal(elt) ) );
+    else
+      result.reset( new first_hand_peal( get_peal(elt) ) );
   }
 
   return result;
-- 
2.43.0


From b303d1ea077c9206cd501878f490d16dc31867c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:12 +0000
Subject: [PATCH 009/117] fix: read CDATA sections in XML documents

---
 ringing/dom_gdome.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ringing/dom_gdome.cpp b/ringing/dom_gdome.cpp
index 2d847e9..5f3367f 100644
--- a/ringing/dom_gdome.cpp
+++ b/ringing/dom_gdome.cpp
@@ -265,7 +265,8 @@ string dom_element::get_content() const
     = gdome_n_firstChild( GDOME_N(pimpl->elt), &pimpl->exc );
 
   while (t) {
-    if ( gdome_n_nodeType(t, &pimpl->exc) == GDOME_TEXT_NODE )
+    unsigned short const type = gdome_n_nodeType(t, &pimpl->exc);
+    if ( type == GDOME_TEXT_NODE || type == GDOME_CDATA_SECTION_NODE )
       value += TRANSCODE_I( gdome_cd_data( GDOME_CD(t), &pimpl->exc ) );
 
     GdomeNode* next = gdome_n_nextSibling( t, &pimpl->exc );
-- 
2.43.0


From 3031183ac8641ffb9500448fd89e707fb75a89b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:30 +0000
Subject: [PATCH 010/117] fix: octal escapes in printed strings

---
 ringing/print_pdf.cpp | 5 +++--
 ringing/print_ps.cpp  | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/ringing/print_pdf.cpp b/ringing/print_pdf.cpp
index 7d2e50b..69daa0f 100644
--- a/ringing/print_pdf.cpp
+++ b/ringing/print_pdf.cpp
@@ -191,10 +191,11 @@ void pdf_file::output_string(const string& s)
       case ')' : os << "\\)"; break;
       case '\\': os << "\\\\"; break;
       default:
-	if(isprint(*i))
+	if(isprint(static_cast<unsigned char>(*i)))
 	  os << *i;
 	else
-	  os << '\\' << setw(3) << static_cast<int>(*i);
+	  os << '\\' << setfill('0') << setw(3)
+	     << static_cast<int>(static_cast<unsigned char>(*i)) << setfill(' ');
 	break;
     }
   }
diff --git a/ringing/print_ps.cpp b/ringing/print_ps.cpp
index b095f4d..6b58a33 100644
--- a/ringing/print_ps.cpp
+++ b/ringing/print_ps.cpp
@@ -246,10 +246,11 @@ void printpage_ps::write_string(const string& s)
       case ')' : os << "\\)"; break;
       case '\\': os << "\\\\"; break;
       default:
-	if(isprint(*i))
+	if(isprint(static_cast<unsigned char>(*i)))
 	  os << *i;
 	else
-	  os << '\\' << setw(3) << static_cast<int>(*i);
+	  os << '\\' << setfill('0') << setw(3)
+	     << static_cast<int>(static_cast<unsigned char>(*i)) << setfill(' ');
 	break;
     }
   }
-- 
2.43.0


From 8ea8f56aab0150f553fc4e060d688bd8a635171d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:30 +0000
Subject: [PATCH 011/117] fix: end-of-file comment of PostScript that uses no
 font

---
 ringing/print_ps.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ringing/print_ps.cpp b/ringing/print_ps.cpp
index 6b58a33..de650a6 100644
--- a/ringing/print_ps.cpp
+++ b/ringing/print_ps.cpp
@@ -199,9 +199,8 @@ printpage_ps::~printpage_ps()
     os << " font ";
     copy(used_fonts.begin(), used_fonts.end(), 
 	 ostream_iterator<string>(os, " "));
-    os << '\n';
   } 
-  os << "%%EOF\n";
+  os << "\n%%EOF\n";
 }
 
 void printpage_ps::new_page()
-- 
2.43.0


From a0adc043f4bc97740e1e865ae10762b4d1d12e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:30 +0000
Subject: [PATCH 012/117] fix: keep the space of unnumbered rows before
 numbered ones in PostScript

---
 ringing/print_ps.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/print_ps.cpp b/ringing/print_ps.cpp
index de650a6..e058ab8 100644
--- a/ringing/print_ps.cpp
+++ b/ringing/print_ps.cpp
@@ -281,6 +281,7 @@ void printrow_ps::print(const row& r)
   // Print the row
   if(opt.flags & printrow::options::numbers) {
     map<bell, printrow::options::line_style>::const_iterator i;
+    fill_gap();
     pp.os << '(';
     for(int j = 0; j < r.bells(); j++) 
       if((opt.flags & printrow::options::miss_numbers) 
@@ -290,7 +291,6 @@ void printrow_ps::print(const row& r)
       else
 	pp.os << r[j];
     pp.os << ") W\n";
-    gapcount = 0;
   } else
     gapcount++;
   count++;
-- 
2.43.0


From ad58bcafbdd1388d12d00750a6821d1bac4c7c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:30 +0000
Subject: [PATCH 013/117] fix: report output failures while writing PDF

---
 ringing/print_pdf.cpp | 5 ++++-
 ringing/print_pdf.h   | 8 ++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/ringing/print_pdf.cpp b/ringing/print_pdf.cpp
index 69daa0f..f5642df 100644
--- a/ringing/print_pdf.cpp
+++ b/ringing/print_pdf.cpp
@@ -45,7 +45,7 @@
 RINGING_START_NAMESPACE
 
 pdf_file::pdf_file(ostream& o, bool l, int w, int h)
-  : csb(o.rdbuf()), os(&csb), width(w), height(h), landscape(l)
+  : dest(o), csb(o.rdbuf()), os(&csb), width(w), height(h), landscape(l)
 {
   start();
 }
@@ -70,6 +70,9 @@ void pdf_file::end()
   os << "trailer\n  << /Size " << obj_count+1
      << "\n     /Root 1 0 R\n     /Info 2 0 R\n  >>\nstartxref\n"
      << xref_offset << "\n%%EOF\n";
+
+  // The caller sees only its own stream, so report failures there
+  if(!os) dest.setstate(ios::badbit);
 }
 
 int pdf_file::start_object(int n) 
diff --git a/ringing/print_pdf.h b/ringing/print_pdf.h
index 1c65e4e..b7c51c8 100644
--- a/ringing/print_pdf.h
+++ b/ringing/print_pdf.h
@@ -67,7 +67,10 @@ public:
   int overflow(int ch = EOF) { 
     int n = pptr() - pbase(); 
     if(n && sync()) return EOF; pbump(-n);
-    if(ch != EOF) { ++c; sb.sputc(ch); }
+    if(ch != EOF) { 
+      ++c; 
+      if(sb.sputc(ch) == EOF) return EOF; 
+    }
     return 0;
   }
   int get_count() { if(pptr() != pbase()) sync(); return c; }
@@ -77,6 +80,7 @@ public:
 // This represents a PDF file.
 class RINGING_API pdf_file {
 private:
+  ostream& dest;
   counting_streambuf csb;
   ostream os;
   int obj_count;
@@ -91,7 +95,7 @@ private:
 public:
   pdf_file(ostream& o, bool is_landscape = false, 
            int pagewidth = 590, int pageheight = 835);
- ~pdf_file() { end(); }
+ ~pdf_file() { try { end(); } catch(...) {} }
 
   void start();
   void end();
-- 
2.43.0


From 6c57f698acdfe2c25ae4468e25d296a95f1c30d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:09 +0000
Subject: [PATCH 014/117] fix: proof's constructors recorded false rows in a
 list not yet constructed

---
 ringing/proof.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ringing/proof.h b/ringing/proof.h
index 0ac162d..cc65340 100644
--- a/ringing/proof.h
+++ b/ringing/proof.h
@@ -228,8 +228,10 @@ public:
   int operator!() const { return !istrue; }
 
 private:
+  failinfo where;                // Details of where it failed.  (Must come
+                                 // first: the constructors fill it in while
+                                 // initialising istrue.)
   bool istrue;                   // Well, is it true or not?
-  failinfo where;                // Details of where it failed.
 }; 
 
 /******************************************
-- 
2.43.0


From 3949b8914505d57dea840bd3955d61b3f6afb252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:09 +0000
Subject: [PATCH 015/117] fix: a full proof stopped recording rows after the
 first false one

---
 ringing/proof.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ringing/proof.h b/ringing/proof.h
index cc65340..fb73490 100644
--- a/ringing/proof.h
+++ b/ringing/proof.h
@@ -251,9 +251,9 @@ bool proof<RowIterator>::prove(RowIterator true_first,
   scoped_pointer<prover> p( qp ? new prover(max) : new prover(where, max) );
   istrue = true;
   for ( ; true_first != true_last && (!qp || istrue) ; ++true_first )
-    istrue = istrue && p->add_row( *true_first );
+    istrue = p->add_row( *true_first ) && istrue;
   for ( ; unknown_first != unknown_last && (!qp || istrue) ; ++unknown_first )
-    istrue = istrue && p->add_row( *unknown_first );
+    istrue = p->add_row( *unknown_first ) && istrue;
   return istrue;
 }
 
-- 
2.43.0


From 00cf2ba844feed751f6bc2cf0bc68d34697b2ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:31 +0000
Subject: [PATCH 016/117] fix: removing a row from a prover removed its
 earliest line, not its latest

---
 ringing/proof.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ringing/proof.cpp b/ringing/proof.cpp
index 4405f39..79434fd 100644
--- a/ringing/proof.cpp
+++ b/ringing/proof.cpp
@@ -80,9 +80,10 @@ bool prover::add_row( const row &r )
 
   range const& rng = ranges.back();
 
-  mmap::iterator i( m.insert( rng.first == m.begin() ? m.begin() 
-			                             : prior( rng.first ),
-			      mmap::value_type( r, ++lineno ) ) );
+  // Insert it after any others so that equal rows are kept in line order.
+  mmap::iterator i( m.insert( rng.second, 
+			      mmap::value_type( r, lineno + 1 ) ) );
+  ++lineno;
 
   if ( n > 1 )
     ++dups; 
-- 
2.43.0


From c8c0c3fe8444e30e40b61489917cb78dd98951be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:31 +0000
Subject: [PATCH 017/117] fix: a row kept its entry among the false rows when
 it was no longer false

---
 ringing/proof.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/proof.cpp b/ringing/proof.cpp
index 79434fd..4b149b9 100644
--- a/ringing/proof.cpp
+++ b/ringing/proof.cpp
@@ -164,7 +164,7 @@ void prover::remove_row( const row& r )
 	    if ( j->_row == r )
 	      {
 		j->_lines.pop_back(); 
-                if ( j->_lines.empty() ) fi->erase(j);
+                if ( (int) n - 1 <= max_occurs ) fi->erase(j);
                 break;
 	      }
         }
-- 
2.43.0


From 918442aaad4c909fbf6ab48647b39305fed40acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:31 +0000
Subject: [PATCH 018/117] fix: the branch of a false touch claimed to be true

---
 ringing/proof.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ringing/proof.cpp b/ringing/proof.cpp
index 4b149b9..75c3398 100644
--- a/ringing/proof.cpp
+++ b/ringing/proof.cpp
@@ -178,6 +178,7 @@ prover::create_branch( shared_pointer<prover> const& chain )
   p->chain      = chain;
   p->max_occurs = chain->max_occurs;
   p->lineno     = chain->lineno;
+  p->falsec     = chain->falsec;
   p->dups       = chain->dups;
   p->fi         = chain->fi;
   // NB do not copy chain->m.
-- 
2.43.0


From f9d02f89c101fb5a108c3b4e45786bc31c05d6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:31 +0000
Subject: [PATCH 019/117] fix: the lines of a false row left out those before
 the branch

---
 ringing/proof.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ringing/proof.cpp b/ringing/proof.cpp
index 75c3398..2c33e8f 100644
--- a/ringing/proof.cpp
+++ b/ringing/proof.cpp
@@ -110,13 +110,13 @@ bool prover::add_row( const row &r )
 	  // in this range, we explicitly add it by hand afterwards.
 	  l._row = r;
 	  bool added_i = false;
-	  {
-	    for ( mmap::iterator j = rng.first; j != rng.second; ++j )
+	  for ( list<range>::const_iterator ri = ranges.begin(), 
+		  re = ranges.end(); ri != re; ++ri )
+	    for ( mmap::iterator j = ri->first; j != ri->second; ++j )
 	      {
 		if ( j == i ) added_i = true;
 		l._lines.push_back( j->second );
 	      }
-	  }
 	  if (!added_i) 
 	    l._lines.push_back( i->second );
 
-- 
2.43.0


From 6e9e3f46b32efed6a4c0b7a1178df0ed6f20dce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:37 +0000
Subject: [PATCH 020/117] fix: music analysis read past the end of a row

---
 ringing/music.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ringing/music.cpp b/ringing/music.cpp
index 49039b2..c307f7b 100644
--- a/ringing/music.cpp
+++ b/ringing/music.cpp
@@ -341,6 +341,10 @@ bool music_node::match(const row &r, unsigned int pos,
     matched = true;
   }
 
+  // The row has no more bells to match.
+  if (pos >= r.bells())
+    return matched;
+
   // Is there a wildcard subnode at index 0?
   BellNodeMap::const_iterator j = subnodes.find(0);
   if (j != subnodes.end()) {
-- 
2.43.0


From 78278b0e535a18378365e6b668abc7e18b50236f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:37 +0000
Subject: [PATCH 021/117] fix: clearing a music analyser kept its patterns

---
 ringing/music.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/music.cpp b/ringing/music.cpp
index c307f7b..6096d06 100644
--- a/ringing/music.cpp
+++ b/ringing/music.cpp
@@ -384,8 +384,8 @@ music::music(unsigned int b, music_details const& md)
 void music::clear(unsigned int new_b) 
 {
   if (new_b) b = new_b;
+  info.clear();
   top_node.reset( new music_node(b) );
-  reset_music();
 }
 
 // Specify the music and add it into the search structure
-- 
2.43.0


From c87d6ebf7ce5130695a719335d756747629e3ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:50 +0000
Subject: [PATCH 022/117] fix: music patterns were matched for the number of
 bells they were added with

---
 ringing/music.cpp | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/ringing/music.cpp b/ringing/music.cpp
index 6096d06..0442058 100644
--- a/ringing/music.cpp
+++ b/ringing/music.cpp
@@ -43,8 +43,6 @@ class music_node
 public:
   // Have to know how many bells there are
   music_node(unsigned int b) : bells(b) {} 
-  void set_bells(unsigned int b);
-
   void add(const string &mds, unsigned int i, unsigned int key, 
            unsigned int pos);
 
@@ -213,16 +211,6 @@ bool music_details::check_bells( unsigned bells ) const
 // function definitions for MUSIC_NODE
 // ********************************************************
 
-void music_node::set_bells(unsigned int b)
-{
-  bells = b;
-
-  // and iterate over each subnode setting it there
-  for (BellNodeMap::iterator i=subnodes.begin(), e=subnodes.end(); i!=e; ++i)
-    if (i->second)
-      i->second->set_bells(b);
-}
-
 // "mds" is the pattern as a string, and "i" is the current character offset
 // into it (as we are called recursively).  "key" is used to identify which
 // pattern matched, if we have several patterns.  "pos" is the logical offset
@@ -404,7 +392,12 @@ void music::set_bells(unsigned int new_b)
     for (iterator i=info.begin(), e=info.end(); i!=e; ++i)
       i->check_bells(new_b);
 
-    top_node->set_bells(new_b);
+    // What a * stands for depends on the number of bells
+    cloning_pointer<music_node> new_top( new music_node(new_b) );
+    for (size_type i = 0; i < info.size(); ++i)
+      new_top->add(info[i].get(), 0, i, 0);
+
+    top_node.swap(new_top);
     b = new_b;
   }
 }
-- 
2.43.0


From bafdd11ce5310e54e5d841e22ea1208d75e23e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:13 +0000
Subject: [PATCH 023/117] fix: a * in a music pattern did not match no bells
 before the last of the pattern

---
 ringing/music.cpp | 48 ++++++++++++++++++++---------------------------
 1 file changed, 20 insertions(+), 28 deletions(-)

diff --git a/ringing/music.cpp b/ringing/music.cpp
index 0442058..fe4efdd 100644
--- a/ringing/music.cpp
+++ b/ringing/music.cpp
@@ -267,20 +267,26 @@ void music_node::add(const string &mds, unsigned int i,
       if (i+1 == mds.size())
         detailsmatch.push_back(key);
 
-      // Is this the last * in the pattern?  If so, it is handled by
-      // add_to_subtree().
-      else if (mds.find('*', i + 1) == string::npos) 
-        add_to_subtree(0, mds, i, key, pos, true);
-          
       else {
-        // We have something like '*456*'
-        // First ignore the star and just move on.
-        add(mds, i + 1, key, pos);
-        // Now deal with the star
-        if (mds.size() - i >= pos)
+        // How many bells does the rest of the pattern match?
+        unsigned int rest = count_bells(mds.substr(i+1));
+
+        // Is this the last * in the pattern?  If so, it matches however
+        // many bells the rest of the pattern leaves.
+        if (mds.find('*', i + 1) == string::npos) {
+          if (bells - pos > rest)
+            add_to_subtree(0, mds, i, key, pos, true);
+          else if (bells - pos == rest)
+            add(mds, i + 1, key, pos);
+        }
+
+        else {
+          // We have something like '*456*'
+          // First ignore the star and just move on.
+          add(mds, i + 1, key, pos);
+          // Now deal with the star
           add_to_subtree(0, mds, i, key, pos, true);
-        else
-          add_to_subtree(0, mds, i, key, pos, false);
+        }
       }
     }
     else throw music_details::invalid_regex(mds, 
@@ -293,22 +299,8 @@ void music_node::add_to_subtree(unsigned int place, const string &mds, unsigned
   cloning_pointer<music_node>& j = subnodes[place];
   if (!j) j.reset( new music_node(bells) );
 
-  if (process_star)
-    {
-      // We are to process star data star.
-      if (bells - pos == count_bells(mds.substr(i, mds.size() - i)) + 1 &&
-	  mds.find('*', i + 1) >= mds.size())
-	// There are now only numbers to go.
-	j->add(mds, i + 1, key, pos + 1);
-      else
-	// We haven't got to the last * position yet, so carry on.
-	j->add(mds, i, key, pos + 1);
-    }
-  else
-    {
-      // Not a star, so move on as normal.
-      j->add(mds, i + 1, key, pos + 1);
-    }
+  // If this is a star, it may go on to match more bells.
+  j->add(mds, process_star ? i : i + 1, key, pos + 1);
 }
 
 bool music_node::match(const row &r, unsigned int pos, 
-- 
2.43.0


From 399e89479fd33bfbd0c2220f51c3e0ed7d6ba828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:13 +0000
Subject: [PATCH 024/117] fix: a row matching a music pattern in several ways
 was counted more than once

---
 ringing/music.cpp | 10 ++++++++--
 ringing/music.h   |  1 +
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/ringing/music.cpp b/ringing/music.cpp
index fe4efdd..757e4c7 100644
--- a/ringing/music.cpp
+++ b/ringing/music.cpp
@@ -128,6 +128,7 @@ bool music_details::set(const string &e, int sh, int sb)
 
   // Should reset this here as we have changed the expression
   counth = countb = 0;
+  row_matched = false;
 
   return pat.set(e);
 }
@@ -316,7 +317,10 @@ bool music_node::match(const row &r, unsigned int pos,
     for (unsigned k = pos; k < r.bells(); ++k)
       wilds2.push_back(r[k]);
 
-    results[*i].increment(stroke);
+    // A row is only counted once, however many ways it matches
+    if (!results[*i].row_matched)
+      results[*i].increment(stroke);
+    results[*i].row_matched = true;
     results[*i].last_wildcards = wilds2;
     matched = true;
   }
@@ -406,8 +410,10 @@ void music::reset_music()
 // and increments or changes the appriopriate variable.
 bool music::process_row(const row &r, bool back)
 {
-  for (music_details& md : info)
+  for (music_details& md : info) {
     md.last_wildcards.clear();
+    md.row_matched = false;
+  }
 
   return top_node->match(r, 0, info, back ? eBackstroke : eHandstroke,
                          vector<bell>());
diff --git a/ringing/music.h b/ringing/music.h
index 7c1e0f2..0aa0771 100644
--- a/ringing/music.h
+++ b/ringing/music.h
@@ -110,6 +110,7 @@ private:
   row_wildcard pat;
   unsigned int counth, countb;
   int scoreh, scoreb;
+  bool row_matched;  // Has the current row already been counted?
   vector<bell> last_wildcards;
 };
 
-- 
2.43.0


From 685836c114f6de18603029fb9285b014bca6765e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:14 +0000
Subject: [PATCH 025/117] fix: swapping the pair after the last swap of a
 change looked past its end

---
 ringing/change.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ringing/change.cpp b/ringing/change.cpp
index 4f4f170..61b6e71 100644
--- a/ringing/change.cpp
+++ b/ringing/change.cpp
@@ -180,7 +180,8 @@ bool change::swappair(bell which)
     if(*s == which - 1) { // The swap before it is there. Replace it
                           // with our new swap.
       *s++ = which;
-      if(*s == which + 1) // The swap after it is there too. Take it out.
+      if(s != swaps.end() && *s == which + 1)
+                          // The swap after it is there too. Take it out.
         swaps.erase(s);
       return true;
     }
-- 
2.43.0


From be4c9550192c73a44adb26241e20d63e4937338a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:14 +0000
Subject: [PATCH 026/117] fix: an extent iterator decremented from the end
 still claimed to be at the end

---
 ringing/extent.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ringing/extent.cpp b/ringing/extent.cpp
index 5ae46dc..22aec8d 100644
--- a/ringing/extent.cpp
+++ b/ringing/extent.cpp
@@ -74,6 +74,7 @@ extent_iterator &extent_iterator::operator--()
     for ( unsigned i=nh; i<nw+nh; ++i ) v[i] = nw+nh-1 - i + nh;
     for ( unsigned i=nw+nh; i<nt; ++i ) v[i] = i;
     r.swap(v);
+    end_ = false;
   } 
   else {
     vector<bell> v; r.swap(v);
-- 
2.43.0


From fbe7a2362e010eb9e3189552b8def4796f3ca44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:14 +0000
Subject: [PATCH 027/117] fix: half-lead falseness only looked at a quarter of
 each lead

---
 ringing/falseness.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ringing/falseness.cpp b/ringing/falseness.cpp
index 5a24bfd..fa7b872 100644
--- a/ringing/falseness.cpp
+++ b/ringing/falseness.cpp
@@ -75,9 +75,8 @@ void falseness_table::init( vector<row> const& m1, vector<row> const& m2 )
 
   set<row> fs;
 
-  vector<row>::const_iterator const
-    e1( flags & half_lead_only ?  m1.begin() + m1.size() / 2 : m1.end() ),
-    e2( flags & half_lead_only ?  m2.begin() + m2.size() / 2 : m2.end() );
+  // If half_lead_only is set, these are already just the first half leads.
+  vector<row>::const_iterator const e1( m1.end() ), e2( m2.end() );
 
   for ( vector<row>::const_iterator i1( m1.begin() ); i1 != e1; ++i1 )
     {
-- 
2.43.0


From 77e6eb37634f4ed94e6feec2b7a26aeb8572f2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:14 +0000
Subject: [PATCH 028/117] fix: the half lead of a one-change method wrote past
 the end of an empty row block

---
 ringing/row.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/row.cpp b/ringing/row.cpp
index 61440fb..fa9048f 100644
--- a/ringing/row.cpp
+++ b/ringing/row.cpp
@@ -600,7 +600,7 @@ static size_t row_block_base_size(vector<change> const& c, int flags)
 row_block::row_block(const vector<change> &c, int flags) 
   : vector<row>( row_block_base_size(c, flags) ), ch(c), flags(flags)
 {
-  if (ch.size()) {
+  if (ch.size() && size()) {
     (*this)[0] = row::rounds(ch[0].bells());
     recalculate();
   }
-- 
2.43.0


From 5ab77766e6940c09be15b1c1fa7f82f75d70de42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:14 +0000
Subject: [PATCH 029/117] fix: the older table_search constructors left the
 length range unset

---
 ringing/table_search.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ringing/table_search.cpp b/ringing/table_search.cpp
index edf138e..c58f80c 100644
--- a/ringing/table_search.cpp
+++ b/ringing/table_search.cpp
@@ -90,14 +90,14 @@ table_search::table_search( const method &meth, const vector<change> &calls,
 table_search::table_search( const method &meth, const vector<change> &calls,
                             bool set_nr )
   : meth( meth ), calls( calls ),
+    lenrange( make_pair( size_t(0), size_t(-1) ) ),
     f( set_nr ? ignore_rotations : no_flags )
 {}
 
 table_search::table_search( const method &meth, const vector<change> &calls,
                             pair< size_t, size_t > lenrange, bool set_nr )
   : meth( meth ), calls( calls ),
-    lenrange( range_div( lenrange, f & length_in_changes
-                                     ? partends.size() * meth.length() : 1) ),
+    lenrange( lenrange ),
     f( set_nr ? ignore_rotations : no_flags )
 {
   DEBUG( "Length range set to " << lenrange.first << "-" << lenrange.second 
-- 
2.43.0


From ab250f0fc2e08b493e964df9856481f08d0aaecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:14 +0000
Subject: [PATCH 030/117] fix: touch searches found some touches again as a
 rotation of another

---
 ringing/basic_search.cpp | 14 ++++++--------
 ringing/table_search.cpp | 14 ++++++--------
 2 files changed, 12 insertions(+), 16 deletions(-)

diff --git a/ringing/basic_search.cpp b/ringing/basic_search.cpp
index 2d466fa..7145773 100644
--- a/ringing/basic_search.cpp
+++ b/ringing/basic_search.cpp
@@ -133,7 +133,7 @@ private:
   void output_touches( outputer &output, size_t cur )
   {
     size_t len( calls.size() );
-    size_t parts( len % cur ? cur : len / cur );
+    size_t parts( len / cur );
     list< touch_child_list::entry > &ch = tl->children();
 
     ch.clear();
@@ -173,13 +173,11 @@ private:
 
   // ... and this function checks that a touch fragment for which 
   // is_possibly_canonical() returns true is a canonical complete touch.
-  bool is_really_canonical()
+  bool is_really_canonical( size_t cur )
   {
-    for ( vector< size_t >::const_iterator i( calls.begin() ); 
-	  i != calls.end(); ++i )
-      if ( *i != calls.front() )
-	return calls.back() != calls.front();
-    return true;
+    // The fragment is a number of copies of its first cur calls, the last of
+    // which may be incomplete.  If it is, there is a lesser rotation.
+    return cur == 0 || calls.size() % cur == 0;
   }
 
   // The main loop of the algorithm   
@@ -193,7 +191,7 @@ private:
     if ( is_row_false( r ) )
       {
 	// Has it come round, and is it in it's canonical form?
-	if ( depth >= lenrange.first && r.isrounds() && is_really_canonical() )
+	if ( depth >= lenrange.first && r.isrounds() && is_really_canonical( cur ) )
 	  output_touches( output, cur );
 
       }
diff --git a/ringing/table_search.cpp b/ringing/table_search.cpp
index c58f80c..25e3257 100644
--- a/ringing/table_search.cpp
+++ b/ringing/table_search.cpp
@@ -269,7 +269,7 @@ private:
 
     // Try all of it's distinguishable rotations.
     if ( !(f & ignore_rotations) && table.partends().size() == 1 ) {
-      size_t parts( len % cur ? cur : len / cur );
+      size_t parts( len / cur );
       for ( size_t start = 1; !force_halt && start < len / parts; ++start ) {
         ch.splice( ch.end(), ch, ch.begin() );
         force_halt = output( t );
@@ -301,17 +301,15 @@ private:
 
   // ... and this function checks that a touch fragment for which 
   // is_possibly_canonical() returns true is a canonical complete touch.
-  bool is_really_canonical()
+  bool is_really_canonical( size_t cur )
   {
     // Multipart comps are always canonical (because we don't prue rotations
     // from multi-part searches)
     if ( table.partends().size() > 1 ) return true;
 
-    for ( vector< size_t >::const_iterator i( calls.begin() ); 
-	  i != calls.end(); ++i )
-      if ( *i != calls.front() )
-	return calls.back() != calls.front();
-    return true;
+    // The fragment is a number of copies of its first cur calls, the last of
+    // which may be incomplete.  If it is, there is a lesser rotation.
+    return cur == 0 || calls.size() % cur == 0;
   }
 
   // The main loop of the algorithm   
@@ -335,7 +333,7 @@ private:
 	// Has it come round, and is it in it's canonical form?
 	if ( depth >= lenrange.first 
              && ( (f & non_round_blocks) || r.isrounds() ) 
-             && is_really_canonical() )
+             && is_really_canonical( cur ) )
 	  output_touch( output, cur );
       }
     else if ( depth < lenrange.second )
-- 
2.43.0


From 0dc828e0270e0ab2852195939e0d485871124532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:14 +0000
Subject: [PATCH 031/117] fix: basic_search assumed that the treble is a hunt
 bell

---
 ringing/basic_search.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/ringing/basic_search.cpp b/ringing/basic_search.cpp
index 7145773..5422fe6 100644
--- a/ringing/basic_search.cpp
+++ b/ringing/basic_search.cpp
@@ -80,20 +80,22 @@ public:
 private:
   void init_falseness( const method &meth )
   {
+    int flags = falseness_table::in_course_only;
+
     for ( vector< row >::const_iterator i( call_lhs.begin() ); 
 	  i != call_lhs.end(); ++i )
       {
+	// At least one odd parity call, so we must consider 
+	// out-of-course falsenesses
 	if ( i->sign() == -1 )
-	  {
-	    // At least one odd parity call, so we must consider 
-	    // out-of-course falsenesses
-	    falsenesses = falseness_table( meth );
-	    return;
-	  }
+	  flags &= ~falseness_table::in_course_only;
+
+	// The treble isn't a hunt bell throughout
+	if ( (*i)[0] != 0 )
+	  flags |= falseness_table::no_fixed_treble;
       }
 
-    // All calls have even parity so we can exclude out-of-course falsenesses
-    falsenesses = falseness_table( meth, falseness_table::in_course_only );
+    falsenesses = falseness_table( meth, flags );
   }
 
   void init_call( const row &le, const change &ch )
-- 
2.43.0


From a0b75fb1382341244ac436b883881f563017f997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:53 +0000
Subject: [PATCH 032/117] fix: every touch kept from a search turned into the
 last one found

---
 ringing/basic_search.cpp | 31 ++++++++++++++++++-------------
 ringing/table_search.cpp | 34 ++++++++++++++++++++--------------
 2 files changed, 38 insertions(+), 27 deletions(-)

diff --git a/ringing/basic_search.cpp b/ringing/basic_search.cpp
index 5422fe6..53844a0 100644
--- a/ringing/basic_search.cpp
+++ b/ringing/basic_search.cpp
@@ -71,9 +71,6 @@ public:
     for ( size_t i=0; i < s->calls.size(); ++i )
       init_call( le, s->calls[i] );
     
-    t.push_back( tl = new touch_child_list );    
-    t.set_head( tl );
-
     init_falseness( s->meth );
   }
 
@@ -131,26 +128,35 @@ private:
     return false;
   }
 
+  // The current touch, starting from the given call.  Each one gets its own
+  // list of leads as whoever we give it to may keep it.
+  touch make_touch( size_t start ) const
+  {
+    touch t2( t );
+    touch_child_list *tl;
+    t2.push_back( tl = new touch_child_list );
+    t2.set_head( tl );
+
+    for ( size_t i=0; i < calls.size(); ++i )
+      tl->push_back( 1, t2.get_node
+                          ( 2 * (1 + calls[ (start + i) % calls.size() ]) ) );
+
+    return t2;
+  }
+
   // Output the current touch and any rotations of it.
   void output_touches( outputer &output, size_t cur )
   {
     size_t len( calls.size() );
     size_t parts( len / cur );
-    list< touch_child_list::entry > &ch = tl->children();
-
-    ch.clear();
-    
-    for ( size_t i=0; i < len; ++i )
-      tl->push_back( 1, t.get_node( 2 * (1 + calls[i]) ) );
 
-    force_halt = output( t );
+    force_halt = output( make_touch( 0 ) );
 
     if ( ! ignore_rotations )
       for ( size_t start = 1; !force_halt && start < len / parts; ++start )
 	{
 	  // Try all of it's distinguishable rotations.
-	  ch.splice( ch.end(), ch, ch.begin() );
-	  force_halt = output( t );
+	  force_halt = output( make_touch( start ) );
 	}
   }
 
@@ -219,7 +225,6 @@ private:
   bool force_halt;			// Are we terminating the search?
   vector< size_t > calls;		// The calls we've had so far
   touch t;				// The current touch
-  touch_child_list *tl;
   bool ignore_rotations;		// Are we to ignore rotations?
 
   set< row > leads;			// The leads had so far
diff --git a/ringing/table_search.cpp b/ringing/table_search.cpp
index 25e3257..b442ecb 100644
--- a/ringing/table_search.cpp
+++ b/ringing/table_search.cpp
@@ -127,9 +127,6 @@ public:
 
     DEBUG( "Initialised " << s->calls.size() << " calls" );
     
-    t.push_back( tl = new touch_child_list );    
-    t.set_head( tl );
-
     init_falseness( s->meth, 
              (is_fixed_treble(s) ? 0 : falseness_table::no_fixed_treble) 
            | (!is_in_course(s)   ? 0 : falseness_table::in_course_only ) );
@@ -246,33 +243,43 @@ private:
     return false;
   }
 
+  // The current touch, starting from the given call.  Each one gets its own
+  // list of leads as whoever we give it to may keep it.
+  touch make_touch( size_t start ) const
+  {
+    touch t2( t );
+    touch_child_list *tl;
+    t2.push_back( tl = new touch_child_list );
+    t2.set_head( tl );
+
+    for ( size_t i=0; i < calls.size(); ++i )
+      tl->push_back( 1, t2.get_node
+                          ( 2 * (1 + calls[ (start + i) % calls.size() ]) ) );
+
+    return t2;
+  }
+
   // Output the current touch and any rotations of it.
   void output_touch( outputer &output, size_t cur )
   {
     size_t len( calls.size() );
-    list< touch_child_list::entry > &ch = tl->children();
-
-    ch.clear();
-    
-    for ( size_t i=0; i < len; ++i )
-      tl->push_back( 1, t.get_node( 2 * (1 + calls[i]) ) );
+    touch const t2( make_touch( 0 ) );
 
     // If we want more than mutually true blocks, make sure it is 
     // actually an n-part.
     if ( !(f & mutually_true_parts) && table.partends().size() > 1 ) {
-      if ( for_each( t.begin(), t.end(), permute(table.bells()) ).get().order()
+      if ( for_each( t2.begin(), t2.end(), permute(table.bells()) ).get().order()
              != table.partends().size() )
         return;
     }
 
-    force_halt = output( t );
+    force_halt = output( t2 );
 
     // Try all of it's distinguishable rotations.
     if ( !(f & ignore_rotations) && table.partends().size() == 1 ) {
       size_t parts( len / cur );
       for ( size_t start = 1; !force_halt && start < len / parts; ++start ) {
-        ch.splice( ch.end(), ch, ch.begin() );
-        force_halt = output( t );
+        force_halt = output( make_touch( start ) );
       }
     }
   }
@@ -359,7 +366,6 @@ private:
   bool impossible;                      // Whether the search cannot succeed
   vector< size_t > calls;		// The calls we've had so far
   touch t;				// The current touch
-  touch_child_list *tl;
   multtab table;			// A precomputed multiplication table
   flags f;	                        // Are we to ignore rotations, etc.
   RINGING_ULLONG nodes;                 // Node count
-- 
2.43.0


From b0144afd9c25a9f02fe0472d9b610f74b2b2978f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:43 +0000
Subject: [PATCH 033/117] fix: multi-part searches assumed in-course part ends
 that fix the treble

---
 ringing/table_search.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ringing/table_search.cpp b/ringing/table_search.cpp
index b442ecb..a8290c0 100644
--- a/ringing/table_search.cpp
+++ b/ringing/table_search.cpp
@@ -152,6 +152,13 @@ private:
         return false;
       }
 
+    for ( group::const_iterator i=s->partends.begin(); 
+          i!=s->partends.end(); ++i )
+      if ( i->sign() == -1 ) {
+        DEBUG( "Part end " << *i << " is out-of-course" );
+        return false;
+      }
+
     DEBUG( "All lead heads are in-course" );
     return true;
   }
@@ -165,6 +172,11 @@ private:
       if ( !s->calls[i].findplace(0) )
 	return false;
 
+    for ( group::const_iterator i=s->partends.begin(); 
+          i!=s->partends.end(); ++i )
+      if ( i->bells() && (*i)[0] )
+        return false;
+
     return true;
   }
 
-- 
2.43.0


From 6552ea229f3f0b1eaeec4893b1957d077d0dbc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:54 +0000
Subject: [PATCH 034/117] fix: multi-part searches missed a lead being false
 against the same lead in another part

---
 ringing/table_search.cpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/ringing/table_search.cpp b/ringing/table_search.cpp
index a8290c0..f5d7567 100644
--- a/ringing/table_search.cpp
+++ b/ringing/table_search.cpp
@@ -201,17 +201,15 @@ private:
     for ( falseness_table::const_iterator i( ft.begin() ); i != ft.end(); ++i )
     {
       // If the lead is false against the part-end then we can never
-      // get a touch on this plan.  This is not just an efficiency hack
-      // -- our proof algorithm doesn't check when a lead is false against
-      // itself, and for an n-part touch a lead being false against the
-      // part end is a form of that.
+      // get a touch on this plan.
       if ( !i->isrounds() && 
            find( table.partends().begin(), table.partends().end(), *i )
              != table.partends().end() )
         impossible = true;
 
       DEBUG( "FLH: " << *i );
-      falsenesses.push_back( table.compute_post_mult( *i ) );
+      if ( !i->isrounds() )
+        falsenesses.push_back( table.compute_post_mult( *i ) );
     }
   }
 
@@ -247,10 +245,20 @@ private:
   // Is the row false against a row that we've already had?
   bool is_row_false( const row_t &r )
   {
+    if ( leads[ r.index() ] )
+      return true;
+
     for ( vector< post_col_t >::const_iterator i( falsenesses.begin() ); 
 	  i != falsenesses.end(); ++i )
-      if ( leads[ (r * *i).index() ] )
-	return true;
+      {
+        size_t const idx( (r * *i).index() );
+        if ( leads[idx] )
+          return true;
+
+        // False against the same lead in another part
+        if ( idx == r.index() )
+          return true;
+      }
 
     return false;
   }
-- 
2.43.0


From 88ecfbc915df12598f5225391f6e9a467bc242f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:49 +0000
Subject: [PATCH 035/117] fix: gsiril: take the upper bound of 'N to M rows'
 from M

---
 apps/gsiril/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/gsiril/parser.cpp b/apps/gsiril/parser.cpp
index 3414319..d9ff93e 100644
--- a/apps/gsiril/parser.cpp
+++ b/apps/gsiril/parser.cpp
@@ -401,7 +401,7 @@ statement msparser::parse_command( vector<token> const& cmd ) {
        && cmd[2].type() == tok_types::num_lit
        && cmd[3].type() == tok_types::name && cmd[3] == "rows" )
     return statement( new rows_stmt( string_to_int(cmd[0]),
-                                     string_to_int(cmd[1]) ) );
+                                     string_to_int(cmd[2]) ) );
 
   // Rounds directive
   if ( cmd.size() == 2 && cmd[0].type() == tok_types::name 
-- 
2.43.0


From 4ed759a66d7de688a296d59d12b2e994a263b970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:49 +0000
Subject: [PATCH 036/117] fix: gsiril: let at() ask for the last place

---
 apps/gsiril/functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/gsiril/functions.cpp b/apps/gsiril/functions.cpp
index 608c858..21102d5 100644
--- a/apps/gsiril/functions.cpp
+++ b/apps/gsiril/functions.cpp
@@ -46,7 +46,7 @@ class at_fn_impl : public fnnode {
     if (args.size() != 1)
       throw runtime_error("The at function takes one argument");
     int idx = args[0].int_evaluate(ctx);
-    if (idx < 1 || idx >= ctx.bells())
+    if (idx < 1 || idx > ctx.bells())
       throw runtime_error("Argument out of range in at function");
     row const& r = ctx.current_row();
     int rv = idx > r.bells() ? idx : r[idx-1]+1;
-- 
2.43.0


From e86a61e6a3d7a8973a9c9d4115926481abbffb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:49 +0000
Subject: [PATCH 037/117] fix: gsiril: crus() matches crus, not runs

---
 apps/gsiril/functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/gsiril/functions.cpp b/apps/gsiril/functions.cpp
index 21102d5..f7038b6 100644
--- a/apps/gsiril/functions.cpp
+++ b/apps/gsiril/functions.cpp
@@ -258,7 +258,7 @@ void register_functions( execution_context& ectx )
   ectx.define_symbol( pair< const string, expression >
     ( "backruns", expression( new runs_impl( music::at_back ) ) ) );
   ectx.define_symbol( pair< const string, expression >
-    ( "crus", expression( new runs_impl ) ) );
+    ( "crus", expression( new crus_impl ) ) );
   ectx.define_symbol( pair< const string, expression >
     ( "methname", expression( new methname_impl ) ) );
   ectx.define_symbol( pair< const string, expression >
-- 
2.43.0


From 64eb4defc51001ec07631a1bc4dfb51753c92b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:49 +0000
Subject: [PATCH 038/117] fix: gsiril: count each node once, so that odd node
 limits work

---
 apps/gsiril/execution_context.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/apps/gsiril/execution_context.cpp b/apps/gsiril/execution_context.cpp
index c10ec4d..715d864 100644
--- a/apps/gsiril/execution_context.cpp
+++ b/apps/gsiril/execution_context.cpp
@@ -148,7 +148,6 @@ bool execution_context::define_symbol( const pair< const string, expression > &d
 
 void execution_context::increment_node_count() const
 {
-  ++node_count;
   if (++node_count == args.node_limit)
     throw runtime_error("Node count exceeded");
 }
-- 
2.43.0


From 2e21c09c822d684fa43f326b6b931395888af774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:49 +0000
Subject: [PATCH 039/117] fix: gsiril: define min_length and max_length for
 half open length ranges

---
 apps/gsiril/execution_context.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/apps/gsiril/execution_context.cpp b/apps/gsiril/execution_context.cpp
index 715d864..910ee7d 100644
--- a/apps/gsiril/execution_context.cpp
+++ b/apps/gsiril/execution_context.cpp
@@ -71,18 +71,19 @@ execution_context::expected_length( pair<size_t, size_t> l )
 { 
   // Define min_length and max_length so they can be referenced by 
   // tooshort and toolong, respectively.
-  if (l.first && l.second) {
+  if (l.first)
     sym_table.define
       ( pair<const string, expression>( "min_length", 
           expression( new integer_node(l.first) ) ) );
+  else
+    sym_table.undefine("min_length");
+
+  if (l.second)
     sym_table.define
       ( pair<const string, expression>( "max_length", 
           expression( new integer_node(l.second) ) ) );
-  }
-  else {
-    sym_table.undefine("min_length");
+  else
     sym_table.undefine("max_length");
-  }
 
   swap( l, args.expected_length ); 
   return l;
-- 
2.43.0


From 7a4015439cba5b5be0efb9619da0f7bc4b6c6142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:49 +0000
Subject: [PATCH 040/117] fix: gsiril: report a division by zero instead of
 dying of it

---
 apps/gsiril/expression.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apps/gsiril/expression.cpp b/apps/gsiril/expression.cpp
index b6e4236..db2c0e6 100644
--- a/apps/gsiril/expression.cpp
+++ b/apps/gsiril/expression.cpp
@@ -819,6 +819,7 @@ void mod_node::debug_print( ostream &os ) const
 RINGING_LLONG mod_node::int_evaluate( proof_context& ctx ) const
 {
   RINGING_LLONG l = left.int_evaluate(ctx), r = right.int_evaluate(ctx);
+  if (r == 0) throw runtime_error("Division by zero");
   return l % r;
 }
 
@@ -832,6 +833,7 @@ void div_node::debug_print( ostream &os ) const
 RINGING_LLONG div_node::int_evaluate( proof_context& ctx ) const
 {
   RINGING_LLONG l = left.int_evaluate(ctx), r = right.int_evaluate(ctx);
+  if (r == 0) throw runtime_error("Division by zero");
   return l / r;
 }
 
-- 
2.43.0


From b61f00986a7d309930c0da9e090f7c6bc48a4336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:49 +0000
Subject: [PATCH 041/117] fix: gsiril: open the script for reading only

---
 apps/gsiril/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/gsiril/main.cpp b/apps/gsiril/main.cpp
index 46390a4..e22edf1 100644
--- a/apps/gsiril/main.cpp
+++ b/apps/gsiril/main.cpp
@@ -228,7 +228,7 @@ bool run( execution_context& e, const arguments& args )
   }
   else if ( !args.filename.empty() ) {
     filename = args.filename;
-    in.reset( new fstream( args.filename.c_str() ) );
+    in.reset( new ifstream( args.filename.c_str() ) );
     if ( !*in ) { 
       cerr << "Error opening file: " << args.filename << "\n";
       exit(3);
-- 
2.43.0


From e168bd9f9898c7d4a2717e114f3f480c9f0bbb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:16 +0000
Subject: [PATCH 042/117] fix: gsiril: do not mistake a read error for the end
 of the script

---
 apps/gsiril/parser.cpp | 18 ++++++++++++++++--
 apps/gsiril/parser.h   |  3 +++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/apps/gsiril/parser.cpp b/apps/gsiril/parser.cpp
index d9ff93e..dbd168d 100644
--- a/apps/gsiril/parser.cpp
+++ b/apps/gsiril/parser.cpp
@@ -42,6 +42,8 @@
 #else
 #include <cctype>
 #endif
+#include <cstdio>
+#include <iostream>
 #include <ringing/streamutils.h>
 #include <ringing/place_notation.h>
 
@@ -246,13 +248,16 @@ class msparser : public parser
 {
 public:
   msparser( istream& in, execution_context& e ) 
-    : ectx(e), args(e.get_args()), tok(in, args),
+    : ectx(e), args(e.get_args()), in(in), tok(in, args),
       tokiter(tok.begin()), tokend(tok.end())
   {}
 
 private:
   virtual statement parse();
   virtual int line() const { return tok.line(); }
+  virtual bool read_error() const { 
+    return in.bad() || in.rdbuf() == cin.rdbuf() && ferror(stdin);
+  }
 
   int bells() const { return ectx.bells(); }
 
@@ -299,6 +304,7 @@ private:
   // Data members
   execution_context& ectx;
   arguments args;
+  istream& in;
   mstokeniser tok;
   mstokeniser::const_iterator tokiter, tokend;
 };
@@ -1029,7 +1035,7 @@ int parser::run( execution_context& e, const string& filename,
   while (true) {
     try {
       statement s( parse() );
-      if ( s.eof() ) break;
+      if ( s.eof() || read_error() ) break;
       s.execute(e);
       ++count;
     }
@@ -1046,5 +1052,13 @@ int parser::run( execution_context& e, const string& filename,
     }
   }
 
+  if (read_error()) {
+    if (filename.size()) cerr << filename << ": ";
+    cerr << "Error reading input" << endl;
+    if (ep == propagate)
+      throw runtime_error( "Error importing module: " + filename );
+    exit(2);
+  }
+
   return count;
 }
diff --git a/apps/gsiril/parser.h b/apps/gsiril/parser.h
index 72ace6d..e70f9cf 100644
--- a/apps/gsiril/parser.h
+++ b/apps/gsiril/parser.h
@@ -60,6 +60,9 @@ public:
   // most recent call to parse()
   virtual int line() const = 0;
 
+  // Whether the input ended because it could not be read any further
+  virtual bool read_error() const = 0;
+
   enum error_policy { warn, fatal, propagate };
 
   // Run the parser until EOF, executing each statement, and return the 
-- 
2.43.0


From a915f591f122b1c9a72776f124b7a4427a30b52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:45 +0000
Subject: [PATCH 043/117] fix: make_string: do not lose text when memory runs
 out

---
 ringing/lexical_cast.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ringing/lexical_cast.h b/ringing/lexical_cast.h
index 2a28490..d30a699 100644
--- a/ringing/lexical_cast.h
+++ b/ringing/lexical_cast.h
@@ -82,6 +82,9 @@ RINGING_USING_STD
 class make_string
 {
 public:
+  // Report running out of memory rather than silently losing text
+  make_string() { os.exceptions(ios::badbit); }
+
   template <class T> 
   make_string &operator<<( const T &val )
   { 
-- 
2.43.0


From d83dc922ec9820cb0a6eb34b4dc514547722afe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:45 +0000
Subject: [PATCH 044/117] fix: gsiril: do not mistake a read error for the end
 of the filtered methods

---
 apps/gsiril/main.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apps/gsiril/main.cpp b/apps/gsiril/main.cpp
index e22edf1..d029766 100644
--- a/apps/gsiril/main.cpp
+++ b/apps/gsiril/main.cpp
@@ -33,6 +33,7 @@
 #include "expression.h"
 #include "prog_args.h"
 #include "functions.h"
+#include <cstdio>
 #include <string>
 #if RINGING_OLD_INCLUDES
 #include <stdexcept.h>
@@ -295,6 +296,9 @@ void filter( execution_context& e, const arguments& args )
                           : i->get_facet<litelib::payload>() )
            << endl;
   }
+
+  if ( cin.bad() || ferror(stdin) )
+    throw runtime_error( "Error reading input stream" );
 }
 
 int main( int argc, char *argv[] )
-- 
2.43.0


From 8db27a51765cf87a1e74b1e0a2d2554e0a743946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:19 +0000
Subject: [PATCH 045/117] fix: gsiril: do not filter a method that could not be
 read to its end

---
 apps/gsiril/main.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/apps/gsiril/main.cpp b/apps/gsiril/main.cpp
index d029766..c237b6e 100644
--- a/apps/gsiril/main.cpp
+++ b/apps/gsiril/main.cpp
@@ -248,6 +248,9 @@ void filter( execution_context& e, const arguments& args )
 {
   litelib in( args.bells, cin );
   for ( library::const_iterator i=in.begin(), ei=in.end(); i!=ei; ++i ) {
+    // A line that could not be read to its end is not a method
+    if ( cin.bad() || ferror(stdin) ) break;
+
     method m;
     try {
       m = i->meth();
-- 
2.43.0


From e6926f2a9023c72456a51b4e858472d7d81c92fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:17 +0000
Subject: [PATCH 046/117] fix: gsiril: count the nodes visited to find a type
 or name, so that the limit holds

---
 apps/gsiril/expr_base.cpp | 10 ++++++++++
 apps/gsiril/expr_base.h   |  6 ++----
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/apps/gsiril/expr_base.cpp b/apps/gsiril/expr_base.cpp
index 732c6f7..44ea0a6 100644
--- a/apps/gsiril/expr_base.cpp
+++ b/apps/gsiril/expr_base.cpp
@@ -188,6 +188,16 @@ expression::apply_replacement( proof_context& ctx, vector<change>& m ) const {
   return impl->apply_replacement(ctx, m); 
 }
 
+expression::type_t expression::type( proof_context& ctx ) const {
+  ctx.increment_node_count();
+  return impl ? impl->type(ctx) : no_type;
+}
+
+string expression::name( proof_context& ctx ) const {
+  ctx.increment_node_count();
+  return impl ? impl->name(ctx) : string();
+}
+
 void statement::execute( execution_context& e ) {
   pimpl->execute(e);
 }
diff --git a/apps/gsiril/expr_base.h b/apps/gsiril/expr_base.h
index 3a922c0..3de0d6b 100644
--- a/apps/gsiril/expr_base.h
+++ b/apps/gsiril/expr_base.h
@@ -131,10 +131,8 @@ public:
 
   bool isnull() const { return !impl; }
   bool isnop() const { return !impl || impl->isnop(); }
-  type_t type( proof_context &ctx ) const 
-    { return impl ? impl->type(ctx) : no_type; }
-  string name( proof_context &ctx ) const 
-    { return impl ? impl->name(ctx) : string(); }
+  type_t type( proof_context &ctx ) const;
+  string name( proof_context &ctx ) const;
 
   void debug_print( ostream &os ) const    { impl->debug_print(os); }
 
-- 
2.43.0


From 74c28be245c7c3bdc906942bcf64092dc854eee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:18 +0000
Subject: [PATCH 047/117] fix: count blows across the places where methsearch
 joins copies of a lead

---
 apps/methsearch/search.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 9a5b083..d877ddb 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -435,6 +435,12 @@ bool searcher::is_acceptable_method()
   if ( ! is_acceptable_leadhead( m.lh() ) )
     return false;
 
+  // The search checks this as it goes along, but not where a symmetry
+  // has joined two copies of part of the lead.
+  if ( args.max_consec_blows && !args.long_le_place 
+         && m.maxblows() > args.max_consec_blows )
+    return false;
+
   if ( args.floating_sym )
     if ( ! try_floating_symmetry() )
       return false;
-- 
2.43.0


From 91a9784c13d0ef0a662391b55e293063e72ca469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:01 +0000
Subject: [PATCH 048/117] fix: apply rotational symmetry to principles and to
 four-change leads

---
 apps/methsearch/search.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index d877ddb..72f6cae 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -1192,8 +1192,8 @@ void searcher::new_midlead_change()
 
       // XXX ALLIANCE -- locate rotational symmetry point
       // Additional requirements for the rotational symmetry point:
-      if ( args.hunt_bells && args.skewsym && lead_len % 4 == 0 
-           && depth % (lead_len/2) == lead_len / 4 - args.hunt_bells % 2 &&
+      if ( args.skewsym && !args.floating_sym && lead_len % 4 == 0 
+           && depth % (lead_len/2) == lead_len / 4 - (sym_offset ? 0 : 1) &&
            ! try_quarterlead_change( ch ) )
         continue;
 
@@ -1454,7 +1454,7 @@ void searcher::general_recurse()
     }
 
   // Only rotational symmetry
-  else if ( args.skewsym && depth == tqlead_sym_pt + 1 && lead_len > 4 )
+  else if ( args.skewsym && depth == tqlead_sym_pt + 1 )
     {
       assert( !args.doubsym && !args.sym );
 
-- 
2.43.0


From 42609c475fffa8d74b9d5d0228eea86342786537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:57 +0000
Subject: [PATCH 049/117] fix: let methsearch's mask differ from change to
 change in a principle

---
 apps/methsearch/mask.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/apps/methsearch/mask.cpp b/apps/methsearch/mask.cpp
index 9d95256..d5823e3 100644
--- a/apps/methsearch/mask.cpp
+++ b/apps/methsearch/mask.cpp
@@ -817,15 +817,18 @@ bool parse_mask( arguments &args )
   assert( above.size() == size_t(lead_len) );
   assert( below.size() == size_t(lead_len) );
 
+  // The changes for an unmasked place in a principle, at each stroke.
+  vector<change> prin_changes[2];
+
   for ( int i=0; i<lead_len; ++i ) {
+    vector<change>& prin = prin_changes[args.right_place ? i%2 : 0];
+
     // Don't recalculate for every place in a principle: this is very 
     // inefficient when doing -IAU0 -Fx type filters.
-    if (args.hunt_bells 
-         || args.allowed_changes.size() < (args.right_place ? 2 : 1)) 
+    if (args.hunt_bells || above[i].size() || prin.empty())
       args.allowed_changes.push_back( vector<change>() );
     else 
-      args.allowed_changes.push_back( 
-        args.allowed_changes[args.right_place ? i%2 : 0] );
+      args.allowed_changes.push_back( prin );
 
     vector<change>& changes_to_try = args.allowed_changes.back();
 
@@ -858,6 +861,9 @@ bool parse_mask( arguments &args )
       if ( changes_to_try.empty() )
         throw mask_error( make_string() << "No such method can exist: "
                           "There no possible changes at position " << i );
+
+      if (!args.hunt_bells && above[i].empty())
+        prin = changes_to_try;
     }
   }
   return true;
-- 
2.43.0


From e955b6abec9e0254c3dc5289eb5b257197cc798c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:19 +0000
Subject: [PATCH 050/117] fix: hold the parts of a lead that symmetry supplies
 to the mask, the prefix and the rest

---
 apps/methsearch/search.cpp | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 72f6cae..a831c04 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -95,6 +95,7 @@ private:
   bool try_with_limited_le( const change& ch );
   bool try_floating_symmetry();
 
+  bool are_copied_changes_acceptable();
   bool is_acceptable_method();
   void output_method( method const& meth );
 
@@ -425,6 +426,36 @@ private:
   row r;
 };
 
+// When a symmetry supplies part of the lead, that part is copied in without
+// having been through new_midlead_change.  Check here what depends on where 
+// in the lead a change is, or on the changes on either side of a join.
+bool searcher::are_copied_changes_acceptable()
+{
+  if ( args.max_consec_blows && !args.long_le_place 
+         && m.maxblows() > args.max_consec_blows )
+    return false;
+
+  const size_t n = m.size();
+  for ( size_t i=0; i<n; ++i ) {
+    if ( args.true_trivial && i && m[i] == m[i-1] )
+      return false;
+
+    if ( args.prefix.size() > i && m[i] != args.prefix[i] )
+      return false;
+
+    vector<change> const& allowed
+      = args.allowed_changes.at( args.hunt_bells || lead_len ? i : i % 2 );
+    if ( find( allowed.begin(), allowed.end(), m[i] ) == allowed.end() )
+      return false;
+  }
+
+  if ( args.true_trivial && !args.hunt_bells && n > 1 
+         && m.back() == m.front() )
+    return false;
+
+  return true;
+}
+
 bool searcher::is_acceptable_method()
 {
   if ( lexicographical_compare( m.begin(), m.end(), 
@@ -435,10 +466,7 @@ bool searcher::is_acceptable_method()
   if ( ! is_acceptable_leadhead( m.lh() ) )
     return false;
 
-  // The search checks this as it goes along, but not where a symmetry
-  // has joined two copies of part of the lead.
-  if ( args.max_consec_blows && !args.long_le_place 
-         && m.maxblows() > args.max_consec_blows )
+  if ( ! are_copied_changes_acceptable() )
     return false;
 
   if ( args.floating_sym )
-- 
2.43.0


From 950132f54550e5f66e1567d827f7e355428a1994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:03 +0000
Subject: [PATCH 051/117] fix: hold right place principles found by methsearch
 to --changes

---
 apps/methsearch/mask.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/apps/methsearch/mask.cpp b/apps/methsearch/mask.cpp
index d5823e3..403567b 100644
--- a/apps/methsearch/mask.cpp
+++ b/apps/methsearch/mask.cpp
@@ -540,8 +540,11 @@ void select_changes_prin( const arguments& args, vector<change>& changes,
                           int i )
 {
   if ( args.right_place && args.bells % 2 == 0 && i % 2 == 0 ) {
-    // Handle -w
-    changes.push_back( change( args.bells, "-" ) );
+    // Handle -w, and --changes with it
+    change const cross( args.bells, "-" );
+    if ( args.changes.empty() || args.include_changes
+         == ( args.changes.find(cross) != args.changes.end() ) )
+      changes.push_back( cross );
   }
 
   else {
-- 
2.43.0


From 04bea3bab626e8e18b8cb3e6be9bdee50501eb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:16 +0000
Subject: [PATCH 052/117] fix: keep the place to resume a methsearch from when
 symmetry supplies some changes

---
 apps/methsearch/search.cpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index a831c04..be95167 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -117,7 +117,6 @@ private:
   RINGING_ULLONG search_count;
   RINGING_ULLONG node_count;
 
-  vector<change> startmeth;
   method filter_method;
   string filter_payload;
   size_t div_start;  // The index (into m) of the row of the division
@@ -140,9 +139,6 @@ searcher::searcher( arguments &args )
     args.orig_lead_len = args.lead_len;
 
   reset();
-
-  copy( args.startmeth.rbegin(), args.startmeth.rend(), 
-        back_inserter(startmeth) );
 }
 
 void searcher::init() {
@@ -1187,13 +1183,12 @@ void searcher::new_midlead_change()
                     random_number_generator );
   }
 
-  // If we're starting at a particular point (with --start), find out
-  // what that change is.
+  // If we're starting at a particular point (with --start), and the changes
+  // so far are those of that method, find out what the next change is.
   change first;
-  if ( startmeth.size() ) {
-    first = startmeth.back();
-    startmeth.pop_back();
-  }
+  if ( depth < size_t(args.startmeth.size()) 
+         && equal( m.begin(), m.end(), args.startmeth.begin() ) )
+    first = args.startmeth[depth];
 
   for ( vector<change>::const_iterator 
           i( changes_to_try.begin() ), e( changes_to_try.end() ); 
-- 
2.43.0


From af8a6cc0b48e9bbcd7dbe914d7d1ddb20a41193e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:34 +0000
Subject: [PATCH 053/117] fix: list methods of another length when methsearch's
 filter is inverted, and stop at its limit

---
 apps/methsearch/search.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index be95167..f4b8715 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -195,6 +195,9 @@ inline void searcher::do_status( method const& m ) {
 void searcher::filter( library const& in )
 {
   for ( library::const_iterator i=in.begin(), e=in.end(); i!=e; ++i ) { 
+    if ( search_limit && search_limit != -1 && search_count == search_limit )
+      break;
+
     class reset_bells {
     public:
       reset_bells(arguments& args) : args(args), val(args.bells) {}
@@ -212,15 +215,21 @@ void searcher::filter( library const& in )
     }
     
 
+    // A method of the wrong length does not match, and so is wanted if we're
+    // inverting the filter.
+    bool can_match = true;
+
     try {
       filter_method = i->meth();
       if (args.lead_len && filter_method.size() != args.lead_len)
-        continue;
-      if ( !args.orig_lead_len ) {
+        can_match = false;
+      else if ( !args.orig_lead_len ) {
         lead_len = args.lead_len = filter_method.length();
         if ( !parse_mask(args) ) 
-          continue;
+          can_match = false;
       }
+      if ( !can_match && !args.invert_filter )
+        continue;
       if ( i->has_facet<litelib::payload>() )
         filter_payload = i->get_facet<litelib::payload>();
       else
@@ -240,7 +249,8 @@ void searcher::filter( library const& in )
     do_status( filter_method );
 
     RINGING_ULLONG old_search_count = search_count;
-    general_recurse();
+    if ( can_match ) 
+      general_recurse();
     assert( m.length() == 0 );
     m = method();  // Reset the number of bells 
 
-- 
2.43.0


From 4246f69887bdefe2afc58718178f7e96ad63e646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:23 +0000
Subject: [PATCH 054/117] fix: let a lightweight library go on after a line
 with a bad number of bells

---
 ringing/litelib.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ringing/litelib.cpp b/ringing/litelib.cpp
index a9d401c..21e8d86 100644
--- a/ringing/litelib.cpp
+++ b/ringing/litelib.cpp
@@ -208,9 +208,12 @@ int litelib::impl::entry_type::read_bells()
 {
   string b_pn = pn();
   string::size_type i = b_pn.find(":");
-  if (i != string::npos) {
+  if (i != string::npos) try {
+    int line_bells = lexical_cast<int>(b_pn.substr(0, i));
     linestart += i + 1;
-    return lexical_cast<int>(b_pn.substr(0, i));
+    return line_bells;
+  } catch ( bad_lexical_cast const& ) {
+    // Leave it for whoever uses the place notation to complain about.
   }
   return 0;
 }
-- 
2.43.0


From d83d2beea43de978597bcc291cce37ccd3d20aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:41 +0000
Subject: [PATCH 055/117] fix: resetting a null shared pointer when memory runs
 out dereferenced a null count

---
 ringing/pointers.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/pointers.h b/ringing/pointers.h
index 7190ae2..3642d4e 100644
--- a/ringing/pointers.h
+++ b/ringing/pointers.h
@@ -248,7 +248,7 @@ public:
     else if ( rc && !--*rc ) { deletor(ptr); }
 # if RINGING_USE_EXCEPTIONS
     else try { rc = new int(0); } 
-    catch (...) { ++*rc; delete src; throw; } 
+    catch (...) { if (rc) ++*rc; delete src; throw; } 
 # else
     else { rc = new int(0); }
 # endif
-- 
2.43.0


From 7354541015f2d9e64e0c24f2802b91158fbdfb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:41 +0000
Subject: [PATCH 056/117] fix: report the input and output errors of methsearch

---
 apps/methsearch/format.cpp | 20 +++++++++++++++-----
 apps/methsearch/main.cpp   |  8 +++++++-
 apps/methsearch/search.cpp | 24 ++++++++++++++++++++----
 3 files changed, 42 insertions(+), 10 deletions(-)

diff --git a/apps/methsearch/format.cpp b/apps/methsearch/format.cpp
index 7f57fda..49a8c8a 100644
--- a/apps/methsearch/format.cpp
+++ b/apps/methsearch/format.cpp
@@ -95,21 +95,31 @@ private:
 class fmtout::impl : public libout::interface {
 public:
   impl( string const& fmt, string const& filename ) 
-    : fs( fmt, format_string::normal_type ) {
-    if ( filename.size() && filename != "-" ) 
+    : fs( fmt, format_string::normal_type ), filename( filename ) {
+    if ( filename.size() && filename != "-" ) {
       os.reset( new ofstream( filename.c_str() ) );
+      if ( !*os ) 
+        throw runtime_error( "Unable to open output file: " + filename );
+    }
   }
 
 private:
   virtual void append( library_entry const& entry ) {
     method_properties props( entry );
-    fs.print_method( props, (os ? *os : cout) );
+    fs.print_method( props, (os ? static_cast<ostream&>(*os) : cout) );
   }
 
-  virtual void flush() {}
+  virtual void flush() {
+    if ( os ) {
+      os->close();
+      if ( !*os ) 
+        throw runtime_error( "Unable to write to output file: " + filename );
+    }
+  }
 
   format_string fs;
-  scoped_pointer< ostream > os;
+  string filename;
+  scoped_pointer< ofstream > os;
 };
 
 fmtout::fmtout( string const& fmt, string const& filename ) 
diff --git a/apps/methsearch/main.cpp b/apps/methsearch/main.cpp
index 3d70f9f..f058761 100644
--- a/apps/methsearch/main.cpp
+++ b/apps/methsearch/main.cpp
@@ -27,12 +27,14 @@
 #include "prog_args.h"
 #include <ctime>
 #include <cstdlib>
+#include <exception>
+#include <iostream>
 
 
 RINGING_USING_NAMESPACE
 RINGING_USING_STD
 
-int main( int argc, char *argv[] )
+int main( int argc, char *argv[] ) try
 {
   bell::set_symbols_from_env();
 
@@ -57,3 +59,7 @@ int main( int argc, char *argv[] )
 
   return 0;
 }
+catch ( std::exception const& ex ) {
+  std::cerr << "methsearch: " << ex.what() << std::endl;
+  return 1;
+}
diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index f4b8715..e368ea5 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -38,11 +38,13 @@
 #if RINGING_OLD_C_INCLUDES
 #include <assert.h>
 #include <math.h>
+#include <stdio.h>
 #include <string.h>
 #include <time.h>
 #else
 #include <cassert>
 #include <cmath>
+#include <cstdio>
 #include <cstring>
 #include <ctime>
 #endif
@@ -192,12 +194,19 @@ inline void searcher::do_status( method const& m ) {
   ++node_count;
 }
 
+// Has standard input failed, as opposed to come to its end?
+static bool input_failed() { return cin.bad() || ferror(stdin); }
+
 void searcher::filter( library const& in )
 {
   for ( library::const_iterator i=in.begin(), e=in.end(); i!=e; ++i ) { 
     if ( search_limit && search_limit != -1 && search_count == search_limit )
       break;
 
+    // A line that could not be read to its end is not a method
+    if ( args.filter_mode && input_failed() )
+      break;
+
     class reset_bells {
     public:
       reset_bells(arguments& args) : args(args), val(args.bells) {}
@@ -235,6 +244,9 @@ void searcher::filter( library const& in )
       else
         filter_payload.clear();
     } 
+    catch ( std::bad_alloc const& ) {
+      throw;
+    }
     catch ( std::exception const& ex ) {
       std::cerr << "Error reading method from input stream: " 
                 << ex.what() << "\n";
@@ -298,10 +310,9 @@ void run_search( arguments &args )
   if ( args.status ) clear_status();
 
   // Causes the stats to be emittted
-  if ( args.H_fmt_str.size() ) {
-    if ( !args.quiet && s.search_count ) cout << "\n";
-    args.outputs.flush();
-  }
+  if ( args.H_fmt_str.size() && !args.quiet && s.search_count ) 
+    cout << "\n";
+  args.outputs.flush();
 
   if ( args.count || args.raw_count || args.node_count )
     {
@@ -312,6 +323,11 @@ void run_search( arguments &args )
       else if ( args.count ) output_count( cout, s.search_count );
       if ( args.node_count ) output_node_count( cout, s.node_count );
     }
+
+  if ( !cout.flush() )
+    throw runtime_error( "Error writing to standard output" );
+  if ( args.filter_mode && input_failed() )
+    throw runtime_error( "Error reading methods from standard input" );
 }
 
 void searcher::output_method( method const& meth )
-- 
2.43.0


From a5f30e23c6dac90fa61662eb05ff42b484cb738b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:45 +0000
Subject: [PATCH 057/117] fix: running out of memory while methsearch changes
 stage is not a failure to match

---
 apps/methsearch/prog_args.cpp | 15 +++++++++++++++
 apps/methsearch/search.cpp    |  2 +-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/apps/methsearch/prog_args.cpp b/apps/methsearch/prog_args.cpp
index cee3a7c..666c41e 100644
--- a/apps/methsearch/prog_args.cpp
+++ b/apps/methsearch/prog_args.cpp
@@ -1155,6 +1155,9 @@ bool arguments::validate_bells( arg_parser* ap )
     if ( !parse_mask( *this ) )
       return false;
   }
+  catch ( const bad_alloc & ) {
+    throw;
+  }
   catch ( const exception &e ) {
     if (ap) ap->error( make_string() << "Unable to process mask: " 
                                      << e.what() );
@@ -1169,6 +1172,9 @@ bool arguments::validate_bells( arg_parser* ap )
   try {
     startmeth = method( startmethstr, bells );
   }
+  catch ( const bad_alloc & ) {
+    throw;
+  }
   catch ( const exception &e ) {
     if (ap) ap->error( make_string() << "Unable to parse --start-at "
                          "place-notation: " << e.what() );
@@ -1179,6 +1185,9 @@ bool arguments::validate_bells( arg_parser* ap )
     // TODO:  This should be folded into the -m method mask 
     prefix = method( prefixstr, bells );
   }
+  catch ( const bad_alloc & ) {
+    throw;
+  }
   catch ( const exception &e ) {
     if (ap) ap->error( make_string() << "Unable to parse --prefix "
                          "place-notation: " << e.what() );
@@ -1188,6 +1197,9 @@ bool arguments::validate_bells( arg_parser* ap )
   if ( overwork_map_file.size() ) try {
     overwork_map( bells, overwork_map_file );
   }
+  catch ( const bad_alloc & ) {
+    throw;
+  }
   catch ( const exception &e ) {
     if (ap) ap->error( make_string() << "Unable to read overwork map: " 
                                      << e.what() );
@@ -1197,6 +1209,9 @@ bool arguments::validate_bells( arg_parser* ap )
   if ( underwork_map_file.size() ) try {
     underwork_map( bells, underwork_map_file );
   }
+  catch ( const bad_alloc & ) {
+    throw;
+  }
   catch ( const exception &e ) {
     if (ap) ap->error( make_string() << "Unable to read underwork map: " 
                                      << e.what() );
diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index e368ea5..adae141 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -210,7 +210,7 @@ void searcher::filter( library const& in )
     class reset_bells {
     public:
       reset_bells(arguments& args) : args(args), val(args.bells) {}
-     ~reset_bells() { args.set_bells(val); }
+     ~reset_bells() { if ( args.bells != val ) args.set_bells(val); }
     private:
       arguments& args;
       int val;
-- 
2.43.0


From 19acc6405b61c484bc29390693d5f4d4f110285e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:04 +0000
Subject: [PATCH 058/117] fix: refuse unterminated and unbalanced formats in
 methsearch instead of crashing

---
 apps/methsearch/format.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/apps/methsearch/format.cpp b/apps/methsearch/format.cpp
index 49a8c8a..bd42317 100644
--- a/apps/methsearch/format.cpp
+++ b/apps/methsearch/format.cpp
@@ -545,8 +545,11 @@ format_string::format_string( const string &infmt,
         case '$': *outfmts.top() << "$$";  break;
         case 'x': {
           unsigned char value = 0x00;
-          value += parse_xdigit(*++iter) * 0x10;
-          value += parse_xdigit(*++iter);
+          for ( int i=0; i<2; ++i ) {
+            if ( ++iter == end )
+              throw argument_error("Invalid \\xNN character escape sequence");
+            value = value * 0x10 + parse_xdigit(*iter);
+          }
           *outfmts.top() << char(value);
         } break;
         // For everything else, \x -> literal x
@@ -586,13 +589,13 @@ format_string::format_string( const string &infmt,
       *outfmts.top() << *iter;
     }
     else if ( *iter == ')' && in_expr ) {
-      if ( parens.top() != '(' )
+      if ( parens.empty() || parens.top() != '(' )
         throw argument_error( "Unmatched parenthesis in $[ ] expression" );
       parens.pop();
       *outfmts.top() << *iter;
     }
     else if ( *iter == ']' && in_expr ) {
-      if ( parens.top() != '[' )
+      if ( parens.empty() || parens.top() != '[' )
         throw argument_error( "Unmatched brackets in $[ ] expression" );
 
       string expr( *outfmts.top() );
@@ -623,6 +626,9 @@ format_string::format_string( const string &infmt,
       *outfmts.top() << *iter;
   }
 
+  if ( outfmts.size() != 1 )
+    throw argument_error( "Unterminated $[ ] or $( ) in format" );
+
   assert( type == require_type ? in_expr : !in_expr );
 
   if ( line_break )
-- 
2.43.0


From ecc5e3fdf7aa2bd44e98d9c571b97c9f3a063641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:04 +0000
Subject: [PATCH 059/117] fix: make the remainder of a division by zero an
 expression error

---
 apps/methsearch/expression.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/apps/methsearch/expression.cpp b/apps/methsearch/expression.cpp
index c625686..5ab22e9 100644
--- a/apps/methsearch/expression.cpp
+++ b/apps/methsearch/expression.cpp
@@ -518,10 +518,21 @@ template <class T>
 struct safe_divides : binary_function<T,T,T> {
   T operator() (const T& x, const T& y) const {
     if (y == T()) throw division_by_zero();
+    // The most negative integer divided by -1 traps on some systems.
+    if (y == T(-1)) return T( 0ul - x );
     return x/y;
   }
 };
 
+template <class T> 
+struct safe_modulus : binary_function<T,T,T> {
+  T operator() (const T& x, const T& y) const {
+    if (y == T()) throw division_by_zero();
+    if (y == T(-1)) return T();
+    return x%y;
+  }
+};
+
 RINGING_END_ANON_NAMESPACE
 
 shared_pointer<expression::node> 
@@ -559,7 +570,7 @@ expression::parser::split_expr( vector<token>::const_iterator first,
       CASE( minus,      RINGING_PREFIX_STD minus         );
       CASE( times,      RINGING_PREFIX_STD multiplies    );
       CASE( divide,                        safe_divides  );
-      CASE( modulo,     RINGING_PREFIX_STD modulus       );
+      CASE( modulo,                        safe_modulus  );
       CASE( iless,      RINGING_PREFIX_STD less          );
       CASE( igreater,   RINGING_PREFIX_STD greater       );
       CASE( ilesseq,    RINGING_PREFIX_STD less_equal    );
-- 
2.43.0


From 3d4b03fa432ced611f254e2c4749c7c99a5ac585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:04 +0000
Subject: [PATCH 060/117] fix: allow a range of changes of a method in
 methsearch's expressions

---
 apps/methsearch/expression.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/apps/methsearch/expression.cpp b/apps/methsearch/expression.cpp
index 5ab22e9..baf8892 100644
--- a/apps/methsearch/expression.cpp
+++ b/apps/methsearch/expression.cpp
@@ -334,8 +334,8 @@ public:
     if ( iter != begin )
       num_opt = atoi( string( begin, iter ).c_str() );
 
-    if ( *iter == ',' ) {
-      string::const_iterator iter2(iter);
+    if ( iter != end && *iter == ',' ) {
+      string::const_iterator iter2(++iter);
       while ( iter != end && isdigit(*iter) ) ++iter;
       if ( iter != iter2 )
         num2_opt = atoi( string( iter2, iter ).c_str() );
@@ -872,6 +872,10 @@ private:
       string::const_iterator j = i;
       if ( *j != '$' ) return failed; ++j;
       while ( j < e && isdigit(*j) ) ++j;
+      if ( j < e && *j == ',' ) {
+        ++j;
+        while ( j < e && isdigit(*j) ) ++j;
+      }
       if ( j == e ) return more; // Or fail?
       // $N* is magic:
       if ( !isalpha(*j) && *j != '*' && *j != '#' && *j != '?' ) 
-- 
2.43.0


From 3ae031942c995a301aa2d5ff94cce4183ef45e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:32 +0000
Subject: [PATCH 061/117] fix: let methsearch's statistics suppress or abort,
 and count by the text printed

---
 apps/methsearch/format.cpp | 206 +++++++++----------------------------
 apps/methsearch/format.h   |  12 +--
 2 files changed, 56 insertions(+), 162 deletions(-)

diff --git a/apps/methsearch/format.cpp b/apps/methsearch/format.cpp
index bd42317..d620c7b 100644
--- a/apps/methsearch/format.cpp
+++ b/apps/methsearch/format.cpp
@@ -72,26 +72,6 @@
 RINGING_USING_NAMESPACE
 RINGING_USING_STD
 
-class statistics
-{
-public:
-  static RINGING_ULLONG output( ostream &os );
-  static void add_entry( const histogram_entry &entry );
-
-  // Public to avoid MSVC compilation errors
- ~statistics();
-
-private:
-  struct impl;
-  scoped_pointer< impl > pimpl;
-
-  static impl &instance();
-
-  statistics();
-};
-
-// -------------------------------------------------------------
-
 class fmtout::impl : public libout::interface {
 public:
   impl( string const& fmt, string const& filename ) 
@@ -136,15 +116,22 @@ public:
 private:
   virtual void append( library_entry const& entry ) {
     method_properties props( entry );
-    fs.add_method_to_stats( props );
+    vector<string> text;
+    if ( fs.expand( props, text ) ) 
+      ++histogram[text];
   }
 
   virtual void flush() {
-    statistics::output( os );
+    for ( map< vector<string>, RINGING_ULLONG >::const_iterator 
+            i( histogram.begin() ), e( histogram.end() ); i != e;  ++i )
+      fs.print_count( i->first, i->second, os );
   }
 
   format_string fs;
   ostream& os;
+
+  // How many times each text has occurred
+  map< vector<string>, RINGING_ULLONG > histogram;
 };
 
 statsout::statsout( string const& fmt )
@@ -171,88 +158,19 @@ int  formats_max_lead_offset() { return max_lead_offset; }
 
 // -------------------------------------------------------------
 
-class histogram_entry
-{
-public:
-  struct cmp
-  { 
-    typedef bool value_type;
-    typedef histogram_entry first_argument_type;
-    typedef histogram_entry second_argument_type;
-    
-    bool operator()( const histogram_entry &x, 
-                     const histogram_entry &y ) const;
-  };
-
-  histogram_entry( const format_string &f, 
-                   const method_properties &m );
-
-  void print( ostream &os, RINGING_ULLONG count ) const;
-
-  RINGING_FAKE_DEFAULT_CONSTRUCTOR( histogram_entry )
-
-private:
-  friend struct cmp;
-
-  const format_string &f;
-
-  method_properties props;
-};
-
-bool histogram_entry::cmp::operator()( const histogram_entry &x, 
-                                       const histogram_entry &y ) const
-{
-  assert( &x.f == &y.f );
-
-  for ( vector< pair< pair<int,int>, string> >::const_iterator 
-          i( x.f.vars.begin() ), e( x.f.vars.end() );  i != e;  ++i )
-    {
-      // These are not taken into account when comparing strings
-      // for stats.  For '%', '$' and ')' this is because they are constant,
-      // and for 'c' it's because it's still unknown.
-      if ( i->second == "%" || i->second == "$" || i->second == ")" 
-           || i->second == "c" )
-        continue;  
-
-      string xval, yval;
-
-      if ( i->second == "*" ) {
-        // TODO: We should cache these in case they contain lengthy 
-        // command invocations and/or non-deterministic output
-        xval = expression_cache::evaluate(i->first.first, x.props);
-        yval = expression_cache::evaluate(i->first.first, y.props);
-      }
-      else {
-        xval = x.props.get_property( i->first, i->second );
-        yval = y.props.get_property( i->first, i->second );
-      }
-
-      if ( xval < yval ) 
-        return true;
-      else if ( xval > yval )
-        return false;
-    }
-
-  // They're equal
-  return false;
-}
-
-histogram_entry::histogram_entry( const format_string &f, 
-                                  const method_properties &props )
-  : f( f ), props( props )
+// Expand the format for a particular method.  The text is returned in pieces,
+// split wherever $c occurs as the count isn't known yet.  Returns false if 
+// the method is to be suppressed.
+bool format_string::expand( const method_properties &props, 
+                            vector<string> &text ) const
 {
-}
-
-
-
-void histogram_entry::print( ostream &os2, RINGING_ULLONG count ) const
-{
-  make_string os;
+  text.clear();
+  string os;
 
   try 
     {
-      for ( string::const_iterator iter( f.fmt.begin() ),
-              end( f.fmt.end() ); iter != end; ++iter )
+      for ( string::const_iterator iter( fmt.begin() ),
+              end( fmt.end() ); iter != end; ++iter )
         {
           if ( *iter == '$' ) 
             {
@@ -275,25 +193,30 @@ void histogram_entry::print( ostream &os2, RINGING_ULLONG count ) const
               switch ( *iter )
                 {
                 case '%': case '$': case ')':
-                  os << *iter;
+                  os += *iter;
                   break;
 
                 case 'c':
-                  os << setw(num_opt) << count; 
+                  text.push_back( os );
+                  os.erase();
                   break;
 
                 case '*': 
-                  os << expression_cache::evaluate(num_opt, props); 
+                  os += expression_cache::evaluate(num_opt, props); 
                   break;
 
                 default:
-                  os << props.get_property( make_pair(num_opt, num2_opt), 
-                                            string(1, *iter) );
+                  try {
+                    os += props.get_property( make_pair(num_opt, num2_opt), 
+                                              string(1, *iter) );
+                  } catch ( out_of_range const& ) {
+                    os += expr_error_string;
+                  }
                 }
             }
           else
             {
-              os << *iter;
+              os += *iter;
             }
         }
     }
@@ -302,10 +225,9 @@ void histogram_entry::print( ostream &os2, RINGING_ULLONG count ) const
       switch ( sc.type() )
         {
         case script_exception::suppress_output:
-          return;
+          return false;
 
         case script_exception::abort_search:
-          os2 << string(os) << flush;
           throw exit_exception();
           
         default:
@@ -313,13 +235,26 @@ void histogram_entry::print( ostream &os2, RINGING_ULLONG count ) const
         }
     }
 
-  os2 << string(os) << flush;
+  text.push_back( os );
+  return true;
 }
 
-
-void format_string::add_method_to_stats( const method_properties &props ) const
+// Print text that has been expanded, now that the count is known.
+void format_string::print_count( const vector<string> &text,
+                                 RINGING_ULLONG count, ostream &os ) const
 {
-  statistics::add_entry( histogram_entry( *this, props ) );
+  make_string ms;
+  vector< pair< pair<int,int>, string > >::const_iterator v( vars.begin() );
+
+  for ( size_t i=0; i<text.size(); ++i ) {
+    if (i) {
+      while ( v != vars.end() && v->second != "c" ) ++v;
+      ms << setw( v == vars.end() ? 0 : (v++)->first.first ) << count;
+    }
+    ms << text[i];
+  }
+
+  os << string(ms) << flush;
 }
 
 RINGING_START_ANON_NAMESPACE
@@ -339,7 +274,9 @@ RINGING_END_ANON_NAMESPACE
 void format_string::print_method( const method_properties &props, 
                                   ostream &os ) const
 {
-  histogram_entry( *this, props ).print( os, 0 );
+  vector<string> text;
+  if ( expand( props, text ) ) 
+    print_count( text, 0, os );
 }
 
 format_string::format_string( const string &infmt, 
@@ -647,49 +584,6 @@ size_t format_string::parse_requirement( const string& str )
 }
 
 
-struct statistics::impl
-{
-  typedef map< histogram_entry, RINGING_ULLONG, 
-               histogram_entry::cmp > map_type;
-  map_type histogram;
-};
-
-statistics::statistics()
-  : pimpl( new impl )
-{
-}
-
-statistics::~statistics()
-{
-}
-
-statistics::impl &statistics::instance()
-{
-  static statistics tmp;
-  return *tmp.pimpl;
-}
-
-RINGING_ULLONG statistics::output( ostream &os )
-{
-  RINGING_ULLONG count(0ul);
-
-  for ( impl::map_type::const_iterator i( instance().histogram.begin() ),
-          e( instance().histogram.end() ); i != e;  ++i ) {
-    i->first.print( os, i->second );
-    count += i->second;
-  }
-
-  return count;
-}
-
-void statistics::add_entry( const histogram_entry &entry )
-{
-  // Grrr... This is needed because I've got a bug in the code somewhere
-  // { make_string ms; entry.print( ms.out_stream(), 0 ); }
-
-  ++instance().histogram[entry];
-}
-
 void clear_status()
 {
   cerr << '\r' << string( display_columns() - 1, ' ' ) << '\r';
diff --git a/apps/methsearch/format.h b/apps/methsearch/format.h
index 2e9ce0d..81b1932 100644
--- a/apps/methsearch/format.h
+++ b/apps/methsearch/format.h
@@ -93,7 +93,6 @@ public:
   {}
 };
 
-class histogram_entry;
 class method_properties;
 
 struct format_string
@@ -104,11 +103,13 @@ struct format_string
 			  format_type type = normal_type );
 
   void print_method( const method_properties &m, ostream &os ) const;
-  void add_method_to_stats( const method_properties &m ) const;
 
-  // List of variables in use.  This is solely used for statistics,
-  // and does not include variables used inside expressions (this 
-  // is because the expression itself, via $N*, is also included).
+  bool expand( const method_properties &m, vector<string> &text ) const;
+  void print_count( const vector<string> &text, RINGING_ULLONG count,
+                    ostream &os ) const;
+
+  // List of variables in use.  This is solely used for finding the widths
+  // of counts, and does not include variables used inside expressions.
   vector< pair< pair<int,int>, string > > vars;
 
   bool has_name;
@@ -119,7 +120,6 @@ struct format_string
   static size_t parse_requirement( const string& str );
 
 private:
-  friend class histogram_entry;
   string fmt;
 };
 
-- 
2.43.0


From 4918746d7cb791106569ebb185a9328922d513f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:32 +0000
Subject: [PATCH 062/117] fix: treat a row, change or path that is not there as
 an expression error in methsearch

---
 apps/methsearch/expression.cpp |  1 +
 apps/methsearch/output.cpp     | 21 ++++++++++-----------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/apps/methsearch/expression.cpp b/apps/methsearch/expression.cpp
index baf8892..368582d 100644
--- a/apps/methsearch/expression.cpp
+++ b/apps/methsearch/expression.cpp
@@ -931,6 +931,7 @@ expression::expression( const string& str )
 #define RINGING_CATCH_EXPRESSION_ERROR( retval )           \
   catch ( division_by_zero const& ) { return (retval); }   \
   catch ( bad_lexical_cast const& ) { return (retval); }   \
+  catch ( out_of_range     const& ) { return (retval); }   \
   catch ( bell::invalid    const& ) { return (retval); }   \
   catch ( row::invalid     const& ) { return (retval); }   \
   catch ( row_wildcard::invalid_pattern const& ) { return (retval); }
diff --git a/apps/methsearch/output.cpp b/apps/methsearch/output.cpp
index f118573..16e713e 100644
--- a/apps/methsearch/output.cpp
+++ b/apps/methsearch/output.cpp
@@ -139,13 +139,13 @@ static string format_pn( const method& m, pair<int,int> const& nums,
                          int fmt_opts ) {
   if (nums.first) {
     if ( nums.first > m.size() || nums.first <= 0 ) 
-      throw runtime_error( "Place notation offset out of range" );
+      throw out_of_range( "Place notation offset out of range" );
     method::const_iterator i( m.begin() + nums.first - 1 );
 
     vector<change> ch;
     if (nums.second) {
       if ( nums.second > m.size() || nums.second < nums.first ) 
-        throw runtime_error( "Place notation offset out of range" );
+        throw out_of_range( "Place notation offset out of range" );
       method::const_iterator e( m.begin() + nums.second );
 
       ch.assign(i, e);
@@ -202,22 +202,18 @@ string method_properties::impl2::get_property( pair<int,int> const& num_opts,
 	  // TODO:  Should we cache all rows at same time?
 	  row r( m.bells() );
 	  int n( num_opts.first );
-	  for ( method::const_iterator 
-		  i( m.begin() ), e( m.begin() + num_opts.first );
+	  for ( method::const_iterator i( m.begin() ), e( m.end() );
 		n && i != e; ++i, --n ) 
 	    r *= *i;
 	  if ( n )
-	    throw runtime_error( "Format specifies row after end of method" );
+	    throw out_of_range( "Format specifies row after end of method" );
 	  os << r;
 	} break;
 
 	case 'h': 
-	  try { 
-            os << m.at( num_opts.first-1 ); 
-          } catch ( out_of_range const& ) {
-            // This should only happen if we're filtering with -U0 and no -n.
-            os << expr_error_string;
-          }
+          // This should only be out of range if we're filtering with -U0 
+          // and no -n.
+          os << m.at( num_opts.first-1 ); 
 	  break;
 
 	case 'b': 
@@ -277,6 +273,9 @@ string method_properties::impl2::get_property( pair<int,int> const& num_opts,
 	  break;
 
 	case 'P': {
+          if ( num_opts.first <= 0 || num_opts.first > m.bells() )
+            throw out_of_range( "Format specifies the path of a bell that is "
+                                "not there" );
 	  bell b(num_opts.first-1); os << b;
 	  for ( method::const_iterator i( m.begin() ), e( m.end() ); 
 		i != e; ++i ) os << (b *= *i);
-- 
2.43.0


From a4a72ab1aecfc2367e8aadca2812c55fda600c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:57 +0000
Subject: [PATCH 063/117] fix: number every method that methsearch finds,
 whether or not its number is printed

---
 apps/methsearch/output.cpp | 18 +++++++++++++-----
 apps/methsearch/output.h   |  3 +++
 apps/methsearch/search.cpp |  4 +++-
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/apps/methsearch/output.cpp b/apps/methsearch/output.cpp
index 16e713e..1e0af58 100644
--- a/apps/methsearch/output.cpp
+++ b/apps/methsearch/output.cpp
@@ -76,12 +76,14 @@ class method_properties::impl2 : public library_entry::impl
 {
 public:
   explicit impl2( const method& m, const string& payload )
-    : m(m), payload(payload), named(false) {}
+    : m(m), payload(payload), named(false), number(0) {}
 
   string get_property( pair<int,int> const& num_opts, 
                        const string& name ) const;
 
 private:
+  friend class method_properties;
+
   // library_entry::impl interface:
   virtual impl* clone() const { return new impl2(*this); }
   
@@ -100,6 +102,7 @@ private:
   mutable method m;
   const string payload;
   mutable bool named; // Have we looked up the name; not whether it is named
+  RINGING_ULLONG number; // The number of this method
   mutable map< pair< pair<int,int>, string >, string > cache;
 };
 
@@ -289,10 +292,9 @@ string method_properties::impl2::get_property( pair<int,int> const& num_opts,
           os << setw(num_opts.first) << staticity(m);
           break;
 
-	case '#': {
-	  static RINGING_ULLONG n=0;
-	  os << setw(num_opts.first) << ++n;
-	} break;
+	case '#':
+	  os << setw(num_opts.first) << number;
+	  break;
  
         case 'i': {
           library_entry const& e = method_libraries::instance().find(m);
@@ -378,6 +380,12 @@ method_properties::method_properties( const library_entry& le )
   }
 }
 
+void method_properties::set_number( RINGING_ULLONG number )
+{
+  // MSVC 6.0 has issues with the get_impl<impl>() syntax  
+  get_impl( (impl2*)NULL )->number = number;
+}
+
 string method_properties::get_property( pair<int,int> const& num_opts,
                                         const string& name ) const
 {
diff --git a/apps/methsearch/output.h b/apps/methsearch/output.h
index ebf06e0..a19260d 100644
--- a/apps/methsearch/output.h
+++ b/apps/methsearch/output.h
@@ -44,6 +44,9 @@ public:
   string get_property( pair<int, int> const& num_opts, 
                        const string& name ) const;
 
+  // Set the number that $# gives
+  void set_number( RINGING_ULLONG number );
+
   static int pn_fmt_flags;
 
 private:
diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index adae141..0bcbd18 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -118,6 +118,7 @@ private:
   RINGING_ULLONG search_limit;
   RINGING_ULLONG search_count;
   RINGING_ULLONG node_count;
+  RINGING_ULLONG output_number;
 
   method filter_method;
   string filter_payload;
@@ -134,7 +135,7 @@ private:
 searcher::searcher( arguments &args )
   : args(args),
     search_limit( args.search_limit ),
-    search_count( 0ul ), node_count( 0ul )
+    search_count( 0ul ), node_count( 0ul ), output_number( 0ul )
 {
   init();
   if (args.bells)
@@ -334,6 +335,7 @@ void searcher::output_method( method const& meth )
 {
   if ( !args.outputs.empty() ) {
     method_properties props( meth, filter_payload );
+    props.set_number( ++output_number );
 
     if ( !args.quiet && args.status && args.outfile.empty() )
       clear_status();
-- 
2.43.0


From 57930ef24070430c74ec877c6cd098efca3aab4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:07 +0000
Subject: [PATCH 064/117] fix: a method without places has one blow in each
 place, not minus one

---
 ringing/method.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ringing/method.cpp b/ringing/method.cpp
index 8dc0b49..0977469 100644
--- a/ringing/method.cpp
+++ b/ringing/method.cpp
@@ -641,7 +641,7 @@ string method::format( int flags ) const
 // Counts the maximum number of consecutive blows in one place
 int method::maxblows(void) const
 {
-  int maxn = 0;
+  int maxn = 2;
 
   for ( const_iterator b(begin()), i(b), e(end()); i != e; ++i )
     for ( int p(0); p < bells(); ++p )
-- 
2.43.0


From 1124936bec1468d0e9c0b13f788a99859046cc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:23 +0000
Subject: [PATCH 065/117] fix: a method of odd length has rotational symmetry
 only if its middle change has

---
 apps/methsearch/methodutils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/methsearch/methodutils.cpp b/apps/methsearch/methodutils.cpp
index 332fdbf..c082f73 100644
--- a/apps/methsearch/methodutils.cpp
+++ b/apps/methsearch/methodutils.cpp
@@ -168,7 +168,7 @@ bool has_rotational_symmetry( const method &m )
     // Try m[i] / m[(i+1)%n] as the rotational symmetry point
     bool ok = true;
 
-    for ( int j=0; j<n/2 && ok; ++j )
+    for ( int j=0; j<(n+1)/2 && ok; ++j )
       if ( m[ (i+j+1)%n ] != m[ (n+i-j)%n ].reverse() )
         ok = false;
 
-- 
2.43.0


From 0ecf3723e1cd0dc903a86e2c8c05c3532517366a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:22 +0000
Subject: [PATCH 066/117] fix: a dollar given as \x24, or escaped in a string
 of an expression, is a dollar

---
 apps/methsearch/expression.cpp | 11 ++++++++++-
 apps/methsearch/format.cpp     |  2 ++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/apps/methsearch/expression.cpp b/apps/methsearch/expression.cpp
index 368582d..b116242 100644
--- a/apps/methsearch/expression.cpp
+++ b/apps/methsearch/expression.cpp
@@ -293,7 +293,16 @@ private:
 
 class string_node : public expression::s_node {
 public:
-  explicit string_node( const string& str ) : s(str) {}
+  explicit string_node( const string& str ) 
+  {
+    // A literal `$', `%' or `)' is still escaped with a `$'.
+    for ( string::size_type i=0; i<str.size(); ++i ) {
+      if ( str[i] == '$' && i+1 < str.size() && 
+           ( str[i+1] == '$' || str[i+1] == '%' || str[i+1] == ')' ) )
+        ++i;
+      s += str[i];
+    }
+  }
 
 private:
   virtual string s_evaluate( const method_properties& m ) const {
diff --git a/apps/methsearch/format.cpp b/apps/methsearch/format.cpp
index d620c7b..a031c5e 100644
--- a/apps/methsearch/format.cpp
+++ b/apps/methsearch/format.cpp
@@ -487,6 +487,8 @@ format_string::format_string( const string &infmt,
               throw argument_error("Invalid \\xNN character escape sequence");
             value = value * 0x10 + parse_xdigit(*iter);
           }
+          // Escape '$' from the next stage
+          if ( value == '$' ) *outfmts.top() << '$';
           *outfmts.top() << char(value);
         } break;
         // For everything else, \x -> literal x
-- 
2.43.0


From 8231746b62d329e9ec643eaa27f45ac6b94a1bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:35 +0000
Subject: [PATCH 067/117] fix: score the music of methods on each number of
 bells that methsearch filters

---
 apps/methsearch/music.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/apps/methsearch/music.cpp b/apps/methsearch/music.cpp
index b5d1780..b1519b0 100644
--- a/apps/methsearch/music.cpp
+++ b/apps/methsearch/music.cpp
@@ -31,6 +31,7 @@
 #include <ringing/row.h>
 #include <ringing/method.h>
 #include <ringing/music.h>
+#include <ringing/pointers.h>
 #include <ringing/streamutils.h>
 
 
@@ -64,8 +65,14 @@ public:
   // This is public to get it to compile in MSVC.
  ~analyser() {}
     
+  // When filtering, there may be methods with various numbers of bells.
   static analyser &instance( int bells ) 
-  { static analyser tmp( bells ); return tmp; }
+  {
+    static map< int, shared_pointer<analyser> > tmp;
+    shared_pointer<analyser> &a = tmp[bells];
+    if ( !a ) a.reset( new analyser( bells ) );
+    return *a;
+  }
 
   friend class patterns;
     
@@ -244,6 +251,7 @@ int musical_analysis::analyse( const method &m )
 
 void musical_analysis::force_init( int bells )
 {
-  // Going into this function initialises the static there.
-  analyser::instance( bells );
+  // Going into this function initialises the static there.  The number of
+  // bells may not be known yet when filtering.
+  if ( bells ) analyser::instance( bells );
 }
-- 
2.43.0


From 150f76734979519fe79d747f70d34ec81b8bdd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:07 +0000
Subject: [PATCH 068/117] fix: gsiril: make arithmetic operators left
 associative

---
 apps/gsiril/parser.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/apps/gsiril/parser.cpp b/apps/gsiril/parser.cpp
index dbd168d..5b58bf0 100644
--- a/apps/gsiril/parser.cpp
+++ b/apps/gsiril/parser.cpp
@@ -841,11 +841,12 @@ msparser::make_expr( vector< token >::const_iterator first,
           ? replacement_node::end : replacement_node::begin ) );
   }
 
-  // Addition operators are next
+  // Addition operators are next.  They are left associative, so that 
+  // 10 - 3 - 2 is 5.
   vector<tok_types::enum_t> addops;
   addops.push_back( tok_types::plus );
   addops.push_back( tok_types::minus );
-  if ( find_one_of( first, last, addops, split ) ) {
+  if ( find_one_of( first, last, addops, split, find_last ) ) {
     if ( split->type() == tok_types::plus ) {
       check_bin_op( first, split, last, "+" );
       return expression( new add_node( make_expr( first, split ),
@@ -857,13 +858,13 @@ msparser::make_expr( vector< token >::const_iterator first,
     }
   }
 
-  // Now multiplication operators: currently only % and .
+  // Now multiplication operators, which are also left associative
   vector<tok_types::enum_t> multops;
   multops.push_back( tok_types::times );
   multops.push_back( tok_types::append );
   multops.push_back( tok_types::divide );
   multops.push_back( tok_types::modulo );
-  if ( find_one_of( first, last, multops, split ) ) {
+  if ( find_one_of( first, last, multops, split, find_last ) ) {
     switch ( split->type() ) {
       case tok_types::modulo:
         check_bin_op( first, split, last, "%" );
-- 
2.43.0


From 420622782e21f1ebe0a5d5da141c24e389683653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:19 +0000
Subject: [PATCH 069/117] fix: gsiril: the version statement prints when it is
 executed, not when it is parsed

---
 apps/gsiril/parser.cpp    | 6 ++----
 apps/gsiril/statement.cpp | 5 +++++
 apps/gsiril/statement.h   | 6 ++++++
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/apps/gsiril/parser.cpp b/apps/gsiril/parser.cpp
index 5b58bf0..aad3490 100644
--- a/apps/gsiril/parser.cpp
+++ b/apps/gsiril/parser.cpp
@@ -381,10 +381,8 @@ statement msparser::parse_command( vector<token> const& cmd ) {
 
   // Version directive
   if ( cmd.size() == 1 && cmd[0].type() == tok_types::name
-       && cmd[0] == "version" ) {
-    cout << "Version: " RINGING_VERSION "\n";
-    return statement( new null_stmt );
-  }
+       && cmd[0] == "version" )
+    return statement( new version_stmt );
 
   // Bells directive
   if ( cmd.size() == 2 && cmd[0].type() == tok_types::num_lit
diff --git a/apps/gsiril/statement.cpp b/apps/gsiril/statement.cpp
index 32b8b5e..8161907 100644
--- a/apps/gsiril/statement.cpp
+++ b/apps/gsiril/statement.cpp
@@ -83,6 +83,11 @@ void null_stmt::execute( execution_context& e )
     e.output() << diagnostic;
 }
 
+void version_stmt::execute( execution_context& e )
+{
+  e.output() << "Version: " RINGING_VERSION "\n";
+}
+
 void prove_stmt::execute( execution_context& e )
 {
   if (e.get_args().prove_one && e.done_one_proof())
diff --git a/apps/gsiril/statement.h b/apps/gsiril/statement.h
index 52c39ab..0b2fe35 100644
--- a/apps/gsiril/statement.h
+++ b/apps/gsiril/statement.h
@@ -87,6 +87,12 @@ private:
   string diagnostic;
 };
 
+// Print the version
+class version_stmt : public statement::impl {
+private:
+  virtual void execute( execution_context& );
+};
+
 // Prove a touch
 class prove_stmt : public statement::impl {
 public:
-- 
2.43.0


From a5a5d98215c6fbf3c46f062f522f0316ab1ede89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:35 +0000
Subject: [PATCH 070/117] fix: gsiril: running out of memory while the -P
 argument is read is an error

---
 apps/gsiril/main.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/apps/gsiril/main.cpp b/apps/gsiril/main.cpp
index c237b6e..828df69 100644
--- a/apps/gsiril/main.cpp
+++ b/apps/gsiril/main.cpp
@@ -176,11 +176,15 @@ void prove_first_symbol( execution_context& e, const arguments& args )
         shared_pointer<parser> p( make_default_parser(in, e) );
         statement s( p->parse() );
 
-        if (!p->parse().eof()) { 
+        if (!s.eof() && !p->parse().eof()) { 
           cerr << "Unexpected content at the end of -P argument\n";
           exit(3);
         }
 
+        // The stream goes bad if memory runs out while it is being read.
+        if (s.eof() || in.bad())
+          throw runtime_error( "Unable to read the -P argument" );
+
         s.execute(e);
       }
     } 
-- 
2.43.0


From 91be86ced202c70c0d9618ecbb7d2461cfe3085b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:03 +0000
Subject: [PATCH 071/117] fix: row expressions: a set that is gone through
 again starts from the beginning, whatever it is made of, and rows differing
 only in omitted tenors are the same

---
 apps/utils/row_calc.cpp | 39 ++++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/apps/utils/row_calc.cpp b/apps/utils/row_calc.cpp
index 19dc0f6..b9e312d 100644
--- a/apps/utils/row_calc.cpp
+++ b/apps/utils/row_calc.cpp
@@ -205,15 +205,25 @@ void evaluate_binary_arguments( row_calc::expr& rhs, row& r,
   }
 }
 
+// Rows may have any number of tenors omitted, so this is what gets compared.
+row omit_tenors( row r )
+{
+  int n = r.bells();
+  while ( n > 1 && r[n-1] == n-1 ) --n;
+  r.resize(n);
+  return r;
+}
+
 class setdiff_node : public row_calc::expr::node {
 public:
   setdiff_node( row_calc::expr const& lhs, row_calc::expr const& rhs )
-    : lhs(lhs), rhs(rhs), started(false)
+    : lhs(lhs), rhs(rhs), started(false), finished(false)
   {}
 
 private:
-  virtual void restart() { lhs.restart(); }
-  virtual int count_vectors() const { return lhs.count_vectors(); }
+  virtual void restart() { lhs.restart(); finished = false; }
+  // The difference of two rows may be empty, so is always a set.
+  virtual int count_vectors() const { return 1 + lhs.count_vectors(); }
   virtual bool reads_stdin() const
     { return lhs.reads_stdin() || rhs.reads_stdin(); }
   virtual bool supports_type( row_calc::expr::types t ) const
@@ -225,24 +235,25 @@ private:
       if (rhs.count_vectors()) 
         try {
           while (true) 
-            exclude.insert( rhs.evaluate() ); 
+            exclude.insert( omit_tenors( rhs.evaluate() ) ); 
         } 
         catch (vector_end) {}
       else
-        exclude.insert( rhs.evaluate() );
+        exclude.insert( omit_tenors( rhs.evaluate() ) );
       started = true;
     }
 
     row r;
     do { 
+      if (finished) throw vector_end();
       r = lhs.evaluate();
-    } while ( lhs.count_vectors() && exclude.count(r) );
-    if ( exclude.count(r) ) throw vector_end();
+      if (!lhs.count_vectors()) finished = true;
+    } while ( exclude.count( omit_tenors(r) ) );
     return r;
   }
 
   row_calc::expr lhs, rhs;
-  bool started;
+  bool started, finished;
   set<row> exclude;
 };                    
 
@@ -288,7 +299,7 @@ public:
   {}
 
 private:
-  virtual void restart() { lhs.restart(); }
+  virtual void restart() { lhs.restart(); rhs.restart(); }
   virtual int count_vectors() const 
     { return lhs.count_vectors() + rhs.count_vectors(); }
   virtual bool reads_stdin() const 
@@ -345,7 +356,13 @@ public:
   set_node( list<row_calc::expr> const& l ) : l(l), started(false) {}
 
 private:
-  virtual void restart() { started = false; }
+  virtual void restart()
+  {
+    for ( list<row_calc::expr>::iterator it=l.begin(); it!=l.end(); ++it )
+      it->restart();
+    started = false;
+  }
+
   virtual int count_vectors() const
   {
     int v = 1;
@@ -400,7 +417,7 @@ public:
     : gens( new set_node(gens) ), started(false) {}
 
 private:
-  virtual void restart() { started = false; gens.restart(); }
+  virtual void restart() { i = g.begin(); }
   virtual int count_vectors() const { return gens.count_vectors(); }
   virtual bool reads_stdin() const { return gens.reads_stdin(); }
   virtual bool supports_type( row_calc::expr::types t ) const
-- 
2.43.0


From 0a98e8306da4cb05862e919365321aff0165627e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:03 +0000
Subject: [PATCH 072/117] fix: row expressions: a row may be raised to a
 negative power

---
 apps/utils/row_calc.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apps/utils/row_calc.cpp b/apps/utils/row_calc.cpp
index b9e312d..5729772 100644
--- a/apps/utils/row_calc.cpp
+++ b/apps/utils/row_calc.cpp
@@ -649,6 +649,10 @@ bool rc_parser::find_last( iter_t const first, iter_t last,
               i->type() == tok_types::close_set   ||
               i->type() == tok_types::close_group )
       --depth;
+    // A minus after a ^ is the sign of the integer following it
+    else if ( i->type() == tok_types::minus && 
+              i != first && (i-1)->type() == tok_types::power )
+      continue;
     else if ( !depth )
       for ( size_t j = 0u; j<N; ++j )
         if ( i->type() == tt_list[j] ) {
-- 
2.43.0


From 9f2861ffb8af9f15cf4fbd3fe6da7a80a4dce39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:03 +0000
Subject: [PATCH 073/117] fix: row expressions: a file need not end with a new
 line, is not taken for standard input, and must be readable

---
 apps/utils/row_calc.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/apps/utils/row_calc.cpp b/apps/utils/row_calc.cpp
index 5729772..af83770 100644
--- a/apps/utils/row_calc.cpp
+++ b/apps/utils/row_calc.cpp
@@ -50,9 +50,11 @@
 #endif
 #if RINGING_OLD_C_INCLUDES
 #include <assert.h>
+#include <stdio.h>
 #include <string.h>
 #else
 #include <cassert>
+#include <cstdio>
 #include <cstring>
 #endif
 #include <ringing/row.h>
@@ -495,7 +497,7 @@ public:
 
 private:
   virtual int count_vectors() const { return 1; }
-  virtual bool reads_stdin() const { return !in_owner; }
+  virtual bool reads_stdin() const { return file == "-"; }
 
   virtual void restart() { 
     if (reads_stdin()) 
@@ -529,10 +531,14 @@ private:
 
     char const seps[] = " ,;:\t\r\n";
     while ( *in && strchr( seps, in->peek() ) ) in->get();
-    if ( !*in || in->peek() == EOF ) throw vector_end();
 
     string r;
-    while ( *in && !strchr( seps, in->peek() ) ) r += (char)in->get(); 
+    while ( *in && in->peek() != EOF && !strchr( seps, in->peek() ) ) 
+      r += (char)in->get(); 
+
+    if ( in->bad() || ( in == &cin && ferror(stdin) ) )
+      throw runtime_error( "Error reading file: '" + file + "'" );
+    if ( r.empty() ) throw vector_end();
     return row(r);
   }
 
-- 
2.43.0


From a90e686e3a2a14fe191536e95bd5164d1869a0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:03 +0000
Subject: [PATCH 074/117] fix: a command's output is read to its end, and its
 exit status is its own

---
 apps/utils/exec.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/apps/utils/exec.cpp b/apps/utils/exec.cpp
index f770d0a..ad6742c 100644
--- a/apps/utils/exec.cpp
+++ b/apps/utils/exec.cpp
@@ -494,7 +494,9 @@ string exec_command( const string& str, int* cmd_status )
       char buffer[buflen];
     
       int i = read( fd, buffer, buflen-1 );
-      if (i <= 0) break; // TODO: Do something more sensible
+      if (i == -1 && errno == EINTR) continue;
+      if (i == -1) THROW_SYSTEM_ERROR( "read" );
+      if (i == 0) break;
       result.append( buffer, i );
     }
   } 
@@ -504,7 +506,7 @@ string exec_command( const string& str, int* cmd_status )
     // Reap child processes
     {
       int status, w;
-      while ( ( w = wait( &status ) ) == -1 && errno == EINTR );
+      while ( ( w = waitpid( pid, &status, 0 ) ) == -1 && errno == EINTR );
       if ( w == -1 ) abort();
     }
 
@@ -516,11 +518,13 @@ string exec_command( const string& str, int* cmd_status )
   // Reap child processes
   {
     int status, w;
-    while ( ( w = wait( &status ) ) == -1 && errno == EINTR );
+    while ( ( w = waitpid( pid, &status, 0 ) ) == -1 && errno == EINTR );
     if ( w == -1 )
-      THROW_SYSTEM_ERROR( "wait" );
+      THROW_SYSTEM_ERROR( "waitpid" );
+    // As the shell does, add 128 to the number of a signal
     if (cmd_status) 
-      *cmd_status = WEXITSTATUS(status);
+      *cmd_status = WIFSIGNALED(status) ? 128 + WTERMSIG(status)
+                                        : WEXITSTATUS(status);
   }
 
   if ( result.size() && result[result.size()-1] == '\n' )
-- 
2.43.0


From 8e3f7dc823e23204b891ccafe375d10f7388e114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:03 +0000
Subject: [PATCH 075/117] fix: rowcalc: a source that cannot be read, or an
 output that cannot be written, is an error

---
 apps/rowcalc/rowcalc.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/apps/rowcalc/rowcalc.cpp b/apps/rowcalc/rowcalc.cpp
index 95c5cef..94c97f7 100644
--- a/apps/rowcalc/rowcalc.cpp
+++ b/apps/rowcalc/rowcalc.cpp
@@ -30,6 +30,7 @@
 #include "console_stream.h"
 #include "stringutils.h"
 
+#include <cstdio>
 #include <iostream>
 #include <exception>
 #include <string>
@@ -146,6 +147,10 @@ bool evaluate_expr( arguments const& args, string const& expr )
     cerr << "Invalid row produced: " << ex.what() << "\n";
     return false;
   }
+  catch ( exception const& ex ) {
+    cerr << "Error evaluating expression: " << ex.what() << "\n";
+    return false;
+  }
 
   return true;
 }
@@ -167,9 +172,18 @@ int main( int argc, char *argv[] )
     }
     if (args.interactive)
       cout << "\n";
+    else if (cin.bad() || ferror(stdin)) {
+      cerr << "Error reading expressions\n";
+      return 1;
+    }
   }
   else for ( vector<string>::const_iterator 
                i=args.expr.begin(), e=args.expr.end(); i != e; ++i )
     if ( !evaluate_expr( args, *i ) )
       return 1;
+
+  if ( !cout.flush() ) {
+    cerr << "Error writing output\n";
+    return 1;
+  }
 }
-- 
2.43.0


From f85c079778810dd42b56d2f0c1fbe4930c61f763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:33 +0000
Subject: [PATCH 076/117] fix: extent: more bells than there can be, or an
 output that cannot be written, is an error

---
 apps/extent/extent.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/apps/extent/extent.cpp b/apps/extent/extent.cpp
index 6307644..48e826c 100644
--- a/apps/extent/extent.cpp
+++ b/apps/extent/extent.cpp
@@ -80,13 +80,19 @@ void arguments::bind( arg_parser& p )
 
 bool arguments::validate( arg_parser& ap )
 {
-  if ( bells < 0 || hunts < 0 || tenors < 0 )
+  if ( bells <= 0 || hunts < 0 || tenors < 0 )
     {
       ap.error( "Then number of bells, hunts and tenors must "
                 "all be positive" );
       return false;
     }
 
+  if ( bells > 256 )
+    {
+      ap.error( "The number of bells must not be more than 256" );
+      return false;
+    }
+
   if ( bells < hunts + tenors ) 
     {
       ap.error( "More hunt bells and fixed tenors than the "
@@ -123,5 +129,11 @@ int main( int argc, char *argv[] )
   for ( extent_iterator i(nw, nh, nt), e; i != e; ++i ) {
     if ( !args.in_course || i->sign() > 0 )
       cout << *i << "\n";
+    if ( !cout ) break;
+  }
+
+  if ( !cout.flush() ) {
+    cerr << "Error writing output\n";
+    return 1;
   }
 }
-- 
2.43.0


From 8cc1fb99b2a7fc7ff79b6c446ce6c199161ddadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:33 +0000
Subject: [PATCH 077/117] fix: musgrep: input that is unreadable or not rows,
 or an output that cannot be written, is an error

---
 apps/musgrep/musgrep.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/apps/musgrep/musgrep.cpp b/apps/musgrep/musgrep.cpp
index 1ceabf3..1631844 100644
--- a/apps/musgrep/musgrep.cpp
+++ b/apps/musgrep/musgrep.cpp
@@ -32,6 +32,7 @@
 #endif
 #include <string>
 #include <vector>
+#include <stdio.h>
 
 // Find isatty()
 #ifdef _MSC_VER
@@ -245,6 +246,10 @@ int main( int argc, char *argv[] )
       cout << r << "\n";
   }
 
+  bool const input_ok = cin.eof() && !cin.bad() && !ferror(stdin);
+  if (!input_ok)
+    cerr << "Error reading rows: the input is unreadable or is not a row\n";
+
   // Print counters
   bool need_sep = false;
   if (args.positive) output_counter( cout, need_sep, countp ); 
@@ -271,5 +276,12 @@ int main( int argc, char *argv[] )
     }
     if (need_sep) cout << endl;
   }
+
+  if ( !cout.flush() ) {
+    cerr << "Error writing output\n";
+    return 1;
+  }
+
+  return input_ok ? 0 : 1;
 }
 
-- 
2.43.0


From aea4975503b7379788979eb7d210d5a2295e6d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:33 +0000
Subject: [PATCH 078/117] fix: printmethod: a bad number of bells, or an output
 that cannot be written, is an error

---
 apps/printmethod/main.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/apps/printmethod/main.cpp b/apps/printmethod/main.cpp
index a3ba3f1..92597b3 100644
--- a/apps/printmethod/main.cpp
+++ b/apps/printmethod/main.cpp
@@ -135,7 +135,15 @@ bool arguments::validate( arg_parser &ap )
 {
   size_t i = methstr.find(':');
   if ( i != string::npos ) {
-    unsigned b = lexical_cast<unsigned>( methstr.substr(0,i) );
+    unsigned b;
+    try {
+      b = lexical_cast<unsigned>( methstr.substr(0,i) );
+    }
+    catch ( bad_lexical_cast const& ) {
+      ap.error( make_string() << "Error: '" << methstr.substr(0,i) 
+                << "' is not a number of bells" );
+      return false;
+    }
     if (bells && b != bells) {
       ap.error("Mismatch between number of bells specified");
       return false;
@@ -149,6 +157,11 @@ bool arguments::validate( arg_parser &ap )
     return false;
   }
 
+  if ( bells < 0 || bells > 256 ) {
+    ap.error( "The number of bells must not be more than 256" );
+    return false;
+  }
+
   try {
     meth = method( methstr, bells );
   } 
@@ -234,6 +247,11 @@ int main(int argc, char* argv[])
 
   for ( int i=0; i<args.final_rounds*2; ++i)
     cout << args.bellfmt << r << "\n";
+
+  if ( !cout.flush() ) {
+    cerr << "Error writing output\n";
+    return 1;
+  }
 }
 
 
-- 
2.43.0


From a12d8813935ab768f9a30f0202df2e7c34c49eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:11 +0000
Subject: [PATCH 079/117] fix: trimming a blank line does not read before its
 beginning

---
 apps/utils/stringutils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/utils/stringutils.cpp b/apps/utils/stringutils.cpp
index 549fb1c..5857e33 100644
--- a/apps/utils/stringutils.cpp
+++ b/apps/utils/stringutils.cpp
@@ -59,7 +59,7 @@ void trim_leading_whitespace( string &line )
 void trim_trailing_whitespace( string &line )
 {
   string::iterator b( line.begin() ), j( line.end() );
-  while ( j-1 != b && isspace(*(j-1)) ) --j;
+  while ( j != b && isspace(*(j-1)) ) --j;
   line = string( b, j );
 }
 
-- 
2.43.0


From 386d16c9945e7103c160e040f14b85aba7214499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:50 +0000
Subject: [PATCH 080/117] fix: methsearch: a start row may be given on fewer
 bells

---
 apps/methsearch/prog_args.cpp | 15 ++++++++-------
 apps/methsearch/prog_args.h   |  1 +
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/apps/methsearch/prog_args.cpp b/apps/methsearch/prog_args.cpp
index 666c41e..8d3e8f7 100644
--- a/apps/methsearch/prog_args.cpp
+++ b/apps/methsearch/prog_args.cpp
@@ -123,12 +123,12 @@ bool falseness_opt::process( const string &arg, const arg_parser & ) const
     }
   else if ( arg.size() > 2 && arg[0] == 's' && arg[1] == '=' )
     {
-      if ( args.start_row.bells() ) {
+      if ( args.orig_start_row.bells() ) {
         cerr << "Multiple -Fs options are not currently supported\n";
         return false;
       }
       try {
-        args.start_row = row( arg.substr(2) );
+        args.orig_start_row = row( arg.substr(2) );
       }
       catch ( exception const& e ) { 
         cerr << "Error parsing row in -Fs option: " << e.what() << "\n";
@@ -1061,6 +1061,12 @@ bool arguments::validate_bells( arg_parser* ap )
 //    return false;
 //  }
 
+  if ( orig_start_row.bells() > bells ) {
+    if (ap) ap->error( "The start row is on too many bells" );
+    return false;
+  }
+  start_row = orig_start_row * row(bells);
+
   if ( orig_avoid_rows.size() ) {
     avoid_rows.clear();
     for ( set<row>::const_iterator 
@@ -1218,11 +1224,6 @@ bool arguments::validate_bells( arg_parser* ap )
     return false;
   }
 
-  if ( start_row.bells() > bells ) {
-    if (ap) ap->error( "The start row is on too many bells" );
-    return false;
-  }
-
   return true;
 }
 
diff --git a/apps/methsearch/prog_args.h b/apps/methsearch/prog_args.h
index f3be6cf..9fa61d2 100644
--- a/apps/methsearch/prog_args.h
+++ b/apps/methsearch/prog_args.h
@@ -133,6 +133,7 @@ struct arguments
   init_val<int,1>      n_extents;
   string               allowed_falseness; 
 
+  row                  orig_start_row;
   row                  start_row;
   vector<row>          pends_generators;
   group                pends;
-- 
2.43.0


From 29b507638638bcae8bf285188d443fc8f3239399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:50 +0000
Subject: [PATCH 081/117] fix: methsearch: rebuild the current row from the
 start row

---
 apps/methsearch/search.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 0bcbd18..1c23c2c 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -706,7 +706,7 @@ inline void searcher::pop_change( row const* r_old )
         && prv )
       prv->remove_row(r);
     if ( r_old ) r = *r_old;  
-    else r = args.pends.rcoset_label( m.lh() );
+    else r = args.pends.rcoset_label( args.start_row * m.lh() );
   }
 }
 
-- 
2.43.0


From 81518748293db34103dca3b7a7ae965817e37960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:50 +0000
Subject: [PATCH 082/117] fix: methsearch: compare lead heads by coset and do
 not avoid them

---
 apps/methsearch/search.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 1c23c2c..87a305d 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -420,9 +420,11 @@ public:
     return p.truth();
   }
 
+  // The rows to be avoided are only avoided in what is being proved, which 
+  // does not include the lead head or half-lead head that follow it.
   bool prove_lh( row const& lh ) {
     row const r2 = args.pends.rcoset_label(lh);
-    if ( r2 != args.start_row )
+    if ( r2 != args.pends.rcoset_label(args.start_row) && !is_avoided(r2) )
       p.add_row(r2);
     return p.truth();
   }
@@ -432,11 +434,10 @@ public:
   bool prove_hl( change const& hlc ) {
     row const r2 = args.pends.rcoset_label(r);
     row const r3 = args.pends.rcoset_label(r*hlc);
-    if ( r2 != r3 ) 
+    if ( r2 != r3 && !is_avoided(r2) ) 
       p.add_row(r2);
     return p.truth();
   }
-    
 
   bool truth() const { return p.truth(); }
   bool is_course_head() const {
@@ -445,6 +446,10 @@ public:
   row const& current_row() const { return r; }
 
 private:
+  bool is_avoided( row const& r ) const {
+    return args.avoid_rows.find(r) != args.avoid_rows.end();
+  }
+
   arguments const& args;
   prover p;
   row r;
@@ -618,7 +623,7 @@ bool searcher::is_acceptable_method()
         if ( !p2.prove_lh() ) return false;
       }  
       else {
-        if ( !p.prove_lh(m.lh()) ) return false;
+        if ( !p.prove_lh( args.start_row * m.lh() ) ) return false;
       }
     }
 
-- 
2.43.0


From 41eba44f6820c2fb475fd0f80e6481e0127baeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:50 +0000
Subject: [PATCH 083/117] fix: methsearch: check symmetric plain methods with
 -Fr and -Fx

---
 apps/methsearch/search.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 87a305d..53b2698 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -169,7 +169,7 @@ void searcher::reset()
   if (maintain_r) 
     r = args.pends.rcoset_label( args.start_row );
 
-  if ( args.true_lead && ( !args.sym ||  
+  if ( args.true_lead && ( !args.sym || !args.true_trivial ||
          args.treble_dodges && !args.same_place_parity )  ||
        args.true_half_lead && ( args.pends.size() > 1 ||
          args.hunt_bells == 0 || args.treble_dodges > 1 ) ) 
@@ -566,13 +566,14 @@ bool searcher::is_acceptable_method()
   // --- Falseness requirements ---
   // Plain methods cannot be false in the half-lead, and if symmetric
   // cannot be false in the plain course.  Therefore we only need this 
-  // test if (i) we have part ends; or (ii) we're not a symmetric plain 
-  // method.
+  // test if (i) we have part ends; (ii) we have rows to avoid; (iii) the
+  // same row may be repeated; or (iv) we're not a symmetric plain method.
   // As a further optimisation, we could (but don't) move symmetric 
   // into the following block by folding the actual lhs and les into the
   // part end group.
   if ( args.true_lead 
-         && ( args.pends.size() > 1 
+         && ( args.pends.size() > 1 || args.avoid_rows.size()
+              || !args.true_trivial
               || !( args.sym && args.hunt_bells && !args.treble_dodges ) ) )
     {
       prover2 p(args);
-- 
2.43.0


From 7fed9619715a3dab00a6ce05be57e5ce23a5addc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:50 +0000
Subject: [PATCH 084/117] fix: methsearch: check true half-leads that a
 symmetric search leaves open

---
 apps/methsearch/search.cpp | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 53b2698..e7fa162 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -596,15 +596,16 @@ bool searcher::is_acceptable_method()
       if ( !args.true_course && !p.prove_lh() ) return false;
     }
 
-  // Although treble-dodging methods with more than one dodge can run
-  // false within a half lead, this is handled by the is_division_false
-  // function.  We only care if (i) we have part ends; or (ii) we're 
-  // looking for hunt-dominated method.  And as this test is a subset
-  // of the previous one, we don't want to do them both.
+  // Plain methods cannot be false in the half-lead unless changes may be
+  // repeated.  Treble-dodging methods can be, and though is_division_false
+  // finds that, it doesn't look at the half-lead head.  We also need this if
+  // we have part ends, or if we're looking for hunt-dominated method.  And as 
+  // this test is a subset of the previous one, we don't want to do them both.
   // If we adopt the above further optimisation, we need to also test
   // -Fl/-Fc for symmetric methods.
   else if ( args.true_half_lead 
-            && ( args.pends.size() > 1 || args.hunt_bells == 0 )  )
+            && ( args.pends.size() > 1 || args.hunt_bells == 0
+                 || args.treble_dodges || !args.true_trivial ) )
     {
       prover2 p(args);
       if ( !p.prove(m.begin(), m.begin()+m.size()/2) )
@@ -615,16 +616,19 @@ bool searcher::is_acceptable_method()
       // end (modulo the part-end group), or that the half-lead head does not
       // cause the initial half-lead to run false.   As above, it's a bit
       // heuristical, but it seems to work.
-      if ( args.sym && !p.prove_hl( m[m.size()/2-1] ) ) return false;
+      if ( ( args.sym || args.hunt_bells ) 
+             && !p.prove_hl( m[m.size()/2-1] ) ) return false;
+
+      bool const need_lh = args.pends.size() > 1 || args.hunt_bells == 0;
 
       if ( !args.sym && !args.doubsym ) {
         prover2 p2(args, p.current_row());
         if ( !p2.prove(m.begin()+m.size()/2, m.end()) )
           return false;
-        if ( !p2.prove_lh() ) return false;
+        if ( need_lh && !p2.prove_lh() ) return false;
       }  
       else {
-        if ( !p.prove_lh( args.start_row * m.lh() ) ) return false;
+        if ( need_lh && !p.prove_lh( args.start_row * m.lh() ) ) return false;
       }
     }
 
@@ -1115,7 +1119,8 @@ cerr << "SOUP: " << ch << " at depth " << m.length() << endl;
   // by the default -Fn.)
   // This test doesn't effect the -E handling noted above as if the base
   // method passes this, so will the variant with a 12 or 1N lh.
-  if ( args.true_half_lead && cur_div_len > 4 && !intersection
+  if ( args.true_half_lead && args.n_extents == 1
+       && cur_div_len > 4 && !intersection
        && is_division_false( m, ch, div_start, cur_div_len ) )
     return false;
   
-- 
2.43.0


From 5ca581974ddbdc15353ef830cdab9199714d0d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:50 +0000
Subject: [PATCH 085/117] fix: methsearch: --row-match=0 is checked

---
 apps/methsearch/search.cpp | 40 +++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index e7fa162..6ba48a3 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -74,6 +74,7 @@ private:
   void general_recurse();
 
   inline bool push_change( const change& ch);
+  bool is_row_matched( size_t n, row const& r ) const;
   inline void pop_change( row const* r_old = NULL );
   inline void call_recurse( const change &ch );
   inline int get_posn() const;
@@ -495,6 +496,10 @@ bool searcher::is_acceptable_method()
   if ( ! is_acceptable_leadhead( m.lh() ) )
     return false;
 
+  // The rows after the first are checked by push_change()
+  if ( ! is_row_matched( 0, args.start_row ) )
+    return false;
+
   if ( ! are_copied_changes_acceptable() )
     return false;
 
@@ -661,6 +666,23 @@ bool searcher::is_acceptable_method()
   return true;
 }
 
+// Does the nth row, which is r (in one of the parts), match what it must?
+bool searcher::is_row_matched( size_t n, row const& r ) const
+{
+  if ( n >= args.row_matches.size() || !args.row_matches[n].bells() )
+    return true;
+
+  music& mus = const_cast<music&>( args.row_matches[n] );
+  if ( args.pends.size() <= 1 )
+    return mus.process_row(r);
+
+  for ( group::const_iterator i(args.pends.begin()), e(args.pends.end());
+          i != e; ++i )
+    if ( mus.process_row(*i * r) )
+      return true;
+  return false;
+}
+
 inline bool searcher::push_change( const change& ch )
 {
   m.push_back( ch );
@@ -677,22 +699,8 @@ inline bool searcher::push_change( const change& ch )
         return false;
     }
 
-    if ( m.size() < args.row_matches.size() 
-         && args.row_matches[m.size()].bells() ) {
-      music& mus = const_cast<music&>( args.row_matches[m.size()] );
-
-      if (args.pends.size() > 1) {
-        bool matched = false;
-        for (group::const_iterator i(args.pends.begin()), e(args.pends.end());
-               i != e; ++i)
-          if (mus.process_row(*i * r))
-            matched = true;
-        if (!matched)
-          return false;
-      }
-      else if (!mus.process_row(r))
-        return false;
-    }
+    if ( !is_row_matched( m.size(), r ) )
+      return false;
   }
   if (m.length() == div_start + cur_div_len) {
     div_start += cur_div_len;
-- 
2.43.0


From 2eff3a2a1a64b47648c26d5c2273ef5b977bef34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:50 +0000
Subject: [PATCH 086/117] fix: methsearch: operands are evaluated left to right

---
 apps/methsearch/expression.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/apps/methsearch/expression.cpp b/apps/methsearch/expression.cpp
index b116242..4c513dd 100644
--- a/apps/methsearch/expression.cpp
+++ b/apps/methsearch/expression.cpp
@@ -133,7 +133,9 @@ public:
 
 private:
   virtual string s_evaluate( const method_properties& m ) const {
-    return op(arg1->s_evaluate(m), arg2->s_evaluate(m));
+    // Commands are run, and change $?, from left to right
+    string const a1( arg1->s_evaluate(m) );
+    return op(a1, arg2->s_evaluate(m));
   }
 
   BinaryOperator op;
@@ -155,7 +157,8 @@ private:
   virtual expression::integer_type 
     i_evaluate( const method_properties& m ) const 
   {
-    return op(arg1->s_evaluate(m), arg2->s_evaluate(m));
+    string const a1( arg1->s_evaluate(m) );
+    return op(a1, arg2->s_evaluate(m));
   }
 
   BinaryOperator op;
@@ -177,7 +180,8 @@ private:
   virtual expression::integer_type 
     i_evaluate( const method_properties& m ) const 
   {
-    return op(arg1->i_evaluate(m), arg2->i_evaluate(m));
+    expression::integer_type const a1( arg1->i_evaluate(m) );
+    return op(a1, arg2->i_evaluate(m));
   }
 
   BinaryOperator op;
-- 
2.43.0


From 2607c0d83b11897d3979f4b95d0693aba4fdb699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:50 +0000
Subject: [PATCH 087/117] fix: methsearch: -Mlead= a row expression with no
 rows

---
 apps/methsearch/music.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/apps/methsearch/music.cpp b/apps/methsearch/music.cpp
index b1519b0..245f0ce 100644
--- a/apps/methsearch/music.cpp
+++ b/apps/methsearch/music.cpp
@@ -98,6 +98,9 @@ musical_analysis::analyser::analyser( int bells )
     make_pair( row(bells), // Course or lead head -- plain course by default
                course ) ); // Look at the whole course by default
 
+  // A row expression can yield no rows, so blocks can become empty.
+  pair< row, length > last( blocks.back() );
+
   // We set this to true even though we haven't had any patterns.
   // This is because we want the first -Mtype=row option to reset
   // the default block (above) rather than augment it.
@@ -117,7 +120,7 @@ musical_analysis::analyser::analyser( int bells )
       if ( opt == "course" || opt == "lead" || opt == "halflead" ||
            opt == "2halflead" || opt == "2rhalflead" || opt == "rhalflead" )
         {
-          length len = blocks.back().second;
+          length len = last.second;
           if (opt == "course") len = course;
           else if (opt == "lead") len = lead;
           else if (opt == "halflead") len = half_lead;
@@ -125,7 +128,7 @@ musical_analysis::analyser::analyser( int bells )
           else if (opt == "2rhalflead") len = half_lead_2r;
           else if (opt == "rhalflead") len = half_lead_r;
 
-          row lh = blocks.back().first;
+          row lh = last.first;
           row_calc::flags rcf = static_cast<row_calc::flags>
             ( row_calc::allow_implicit_treble | row_calc::allow_row_promotion );
           scoped_pointer<row_calc> rc;
@@ -156,6 +159,7 @@ musical_analysis::analyser::analyser( int bells )
            else
             blocks.push_back( make_pair( lh, len ) );
 
+          if (!blocks.empty()) last = blocks.back();
           continue;
         }
 
-- 
2.43.0


From 95f0cf483178456ee9b8dee4261a9cb62352e191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:59 +0000
Subject: [PATCH 088/117] fix: methsearch: a filter without -b checks truth as
 it goes

---
 apps/methsearch/search.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 6ba48a3..731ee15 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -161,15 +161,8 @@ void searcher::init() {
   cur_div_len = calc_cur_div_len();
   r = args.pends.rcoset_label( args.start_row );
   maintain_r = args.avoid_rows.size() || args.row_matches.size();
-}
-
-void searcher::reset()
-{
-  init();
-
-  if (maintain_r) 
-    r = args.pends.rcoset_label( args.start_row );
 
+  prv.reset();
   if ( args.true_lead && ( !args.sym || !args.true_trivial ||
          args.treble_dodges && !args.same_place_parity )  ||
        args.true_half_lead && ( args.pends.size() > 1 ||
@@ -183,7 +176,11 @@ void searcher::reset()
     assert( prv->truth() );
     maintain_r = true;
   }
+}
 
+void searcher::reset()
+{
+  init();
   start = time(NULL);
 }
 
-- 
2.43.0


From 871708277b058c30e3db23a0a7021b42317fdf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:59 +0000
Subject: [PATCH 089/117] fix: methsearch: by default leads may come back to
 rounds, as before

---
 apps/methsearch/prog_args.cpp | 11 +++++++++--
 apps/methsearch/search.cpp    |  2 +-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/apps/methsearch/prog_args.cpp b/apps/methsearch/prog_args.cpp
index 8d3e8f7..f36bebe 100644
--- a/apps/methsearch/prog_args.cpp
+++ b/apps/methsearch/prog_args.cpp
@@ -1065,7 +1065,13 @@ bool arguments::validate_bells( arg_parser* ap )
     if (ap) ap->error( "The start row is on too many bells" );
     return false;
   }
-  start_row = orig_start_row * row(bells);
+  // By default the start row is left empty: it is then not proved, and a 
+  // lead may come back to rounds part way.  It must be proved if there are 
+  // part ends or if rows may be repeated.
+  start_row = orig_start_row;
+  if ( start_row.bells() || pends_generators.size() 
+       || n_extents > 1 || !true_trivial )
+    start_row = start_row * row(bells);
 
   if ( orig_avoid_rows.size() ) {
     avoid_rows.clear();
@@ -1074,7 +1080,8 @@ bool arguments::validate_bells( arg_parser* ap )
       avoid_rows.insert( pends.rcoset_label( *i * row(bells) ) );
   }
 
-  if ( avoid_rows.find( pends.rcoset_label(start_row) ) != avoid_rows.end() ) {
+  if ( avoid_rows.find( pends.rcoset_label( start_row * row(bells) ) ) 
+       != avoid_rows.end() ) {
     if (ap) ap->error( "The start row conflicts with avoided row" );
     return false;
   }
diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 731ee15..ed7af5a 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -494,7 +494,7 @@ bool searcher::is_acceptable_method()
     return false;
 
   // The rows after the first are checked by push_change()
-  if ( ! is_row_matched( 0, args.start_row ) )
+  if ( ! is_row_matched( 0, args.start_row * row(bells) ) )
     return false;
 
   if ( ! are_copied_changes_acceptable() )
-- 
2.43.0


From ed1ea70909c1249eef683b3cdb97ced0daca0a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:34 +0000
Subject: [PATCH 090/117] fix: touch iterators skip empty children

---
 ringing/touch.cpp | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/ringing/touch.cpp b/ringing/touch.cpp
index d81a625..6b71dbd 100644
--- a/ringing/touch.cpp
+++ b/ringing/touch.cpp
@@ -84,24 +84,29 @@ private:
   friend class touch_child_list;
   iterator(list<entry>::const_iterator j, 
 	   list<entry>::const_iterator k) : i(j), last(k), count(0)
-  { if(i != last) { ci = (*i).second->begin(); } }
+  { start(); }
+
+  void start();
 };
 
+// Find the next change, if any: children may be empty.
+void touch_child_list::iterator::start()
+{
+  for ( ; i != last; ++i, count = 0 )
+    if(count < (*i).first) {
+      ci = (*i).second->begin();
+      if(!(ci == (*i).second->end())) return;
+    }
+}
+
+
 
 touch_node::iterator_base& touch_child_list::iterator::operator++()
 {
   ++ci;
   if(ci == (*i).second->end()) {
     ++count;
-    if(count != (*i).first) {
-      ci = (*i).second->begin();
-    } else {
-      ++i;
-      if(i != last) {
-	count = 0;
-	ci = (*i).second->begin();
-      }
-    }
+    start();
   }
   return *this;
 }
-- 
2.43.0


From 676916ff215f710cc6cc40d95d06457d76480cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:34 +0000
Subject: [PATCH 091/117] fix: table_search with non-round blocks: rotations
 are left out as asked

---
 ringing/table_search.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ringing/table_search.cpp b/ringing/table_search.cpp
index f5d7567..2eeae40 100644
--- a/ringing/table_search.cpp
+++ b/ringing/table_search.cpp
@@ -296,7 +296,8 @@ private:
     force_halt = output( t2 );
 
     // Try all of it's distinguishable rotations.
-    if ( !(f & ignore_rotations) && table.partends().size() == 1 ) {
+    if ( !(f & (ignore_rotations | non_round_blocks)) 
+         && table.partends().size() == 1 ) {
       size_t parts( len / cur );
       for ( size_t start = 1; !force_halt && start < len / parts; ++start ) {
         force_halt = output( make_touch( start ) );
@@ -314,6 +315,9 @@ private:
     if ( calls.empty() )
       return true;
 
+    // A rotation of a touch that does not come round is another touch
+    if ( f & non_round_blocks ) return true;
+
     // Multipart comps are always canonical 
     if ( table.partends().size() > 1 ) return true;
 
@@ -334,6 +338,8 @@ private:
     // from multi-part searches)
     if ( table.partends().size() > 1 ) return true;
 
+    if ( f & non_round_blocks ) return true;
+
     // The fragment is a number of copies of its first cur calls, the last of
     // which may be incomplete.  If it is, there is a lesser rotation.
     return cur == 0 || calls.size() % cur == 0;
-- 
2.43.0


From 1ceac2633f30bedf03b7559bbac2eb3597a3fae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:34 +0000
Subject: [PATCH 092/117] fix: touchsearch: plans are checked, and a maximum
 length is kept to

---
 apps/touchsearch/join_plan_search.cpp | 40 +++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/apps/touchsearch/join_plan_search.cpp b/apps/touchsearch/join_plan_search.cpp
index 7d97638..7fc21e8 100644
--- a/apps/touchsearch/join_plan_search.cpp
+++ b/apps/touchsearch/join_plan_search.cpp
@@ -29,6 +29,12 @@
 #else
 #include <vector>
 #endif
+#if RINGING_OLD_INCLUDES
+#include <stdexcept.h>
+#else
+#include <stdexcept>
+#endif
+#include <ringing/streamutils.h>
 #include <ringing/search_base.h>
 #include <ringing/falseness.h>
 #include <ringing/multtab.h>
@@ -94,9 +100,19 @@ private:
     int const psign 
       = s->plan.size() ? s->plan.begin()->second.back().sign() : 0;
 
+    // The lead ends need to be in the table too
+    if ( psign == -1 ) {
+      DEBUG( "Lead ends are out-of-course" );
+      return false;
+    }
+
     for ( map<row,method>::const_iterator i=s->plan.begin(), e=s->plan.end();
             i != e; ++i )
-      if ( i->second.lh().sign() == -1 ) {
+      if ( i->first.sign() == -1 ) {
+        DEBUG( "Lead head " << i->first << " is out-of-course" );
+        return false;
+      }
+      else if ( i->second.lh().sign() == -1 ) {
         DEBUG( "Lead head of method " << i->second.format() << " (at " 
                << i->first << ") is out-of-course" );
         return false;
@@ -117,8 +133,28 @@ private:
     return true;
   }
 
+  // The table only has rows with a fixed treble, so nothing may move it.
+  static void check_treble( const join_plan_search *s )
+  {
+    for ( map<row,method>::const_iterator i=s->plan.begin(), e=s->plan.end();
+            i != e; ++i )
+      if ( i->first.bells() != int(s->bells) || i->first[0] != 0 )
+        throw invalid_argument( make_string() << "The plan's lead head "
+          << i->first << " does not have a fixed treble" );
+      else if ( i->second.empty() || (i->second.lh() * i->second.back())[0] )
+        throw invalid_argument( make_string() << "The plan's method for "
+          << i->first << " does not have a fixed treble" );
+
+    for ( size_t i=0; i < s->calls.size(); ++i )
+      if ( !s->calls[i].findplace(0) )
+        throw invalid_argument( make_string() << "The call " << s->calls[i]
+          << " does not have a fixed treble" );
+  }
+
   static multtab make_table( const join_plan_search *s )
   {
+    check_treble(s);
+
     if ( is_in_course(s) ) {
       return multtab( incourse_extent_iterator( s->bells - 1, 1),
                       incourse_extent_iterator() );
@@ -208,7 +244,7 @@ private:
         if ( depth >= lenrange.first && lh.isrounds() )
           output_touch( output );
       }
-    else if ( depth < lenrange.second )
+    else if ( depth + lens[meth_n] <= lenrange.second )
       {
         const int num_meths = les.size();
 
-- 
2.43.0


From 8fd04ca0d25c91666064381f77a55aa428d45906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:34 +0000
Subject: [PATCH 093/117] fix: touchsearch: comma-separated calls, line numbers
 and errors of input and output

---
 apps/touchsearch/main.cpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/apps/touchsearch/main.cpp b/apps/touchsearch/main.cpp
index 00392d3..8ce6a81 100644
--- a/apps/touchsearch/main.cpp
+++ b/apps/touchsearch/main.cpp
@@ -46,6 +46,7 @@
 #include <fstream>
 #endif
 #include <cassert>
+#include <stdio.h>
 
 
 RINGING_USING_NAMESPACE
@@ -85,7 +86,7 @@ public:
       = dynamic_cast<touch_child_list const*>( t.get_head() );
     assert( tl );
      
-    size_t len = 0;   row r(args.bells);
+    size_t len = 0;   row r(args.bells);   bool first = true;
     do for ( list<touch_child_list::entry>::const_iterator
                i = tl->children().begin(), e = tl->children().end();  
                i != e;  ++i ) 
@@ -100,7 +101,8 @@ public:
         size_t cn = find( args.calls.begin(), args.calls.end(), c ) 
             - args.calls.begin();
 
-        if ( (flags & comma_separate) && len != 0 ) cout << ',';
+        if ( (flags & comma_separate) && !first ) cout << ',';
+        first = false;
         if ( cn < args.calls.size() ) cout << args.call_strs[cn];
         else cout << args.plain_name;
       }
@@ -145,6 +147,13 @@ private:
   shared_pointer<size_t> i;
 };
 
+// The end of the input is not the same as a failure to read it
+void check_input( istream const& in )
+{
+  if ( in.bad() || ferror(stdin) )
+    throw runtime_error( "The input is unreadable" );
+}
+
 void read_plan( int bells, istream& in, map<row, method>& plan )
 {
   string line;  
@@ -153,13 +162,15 @@ void read_plan( int bells, istream& in, map<row, method>& plan )
     RINGING_ISTRINGSTREAM linestr(line);
     row r;    string pn, name;
     if ( !(linestr >> r >> pn) )  {
-      cerr << "Error reading line #" << n << "\n";
+      cerr << "Error reading line #" << n++ << "\n";
       continue;
     }
     linestr >> name; // We don't care about errors here
     ++n;
-    plan[r] = method( pn, bells, name );
+    plan[ row(bells) * r ] = method( pn, bells, name );
   }
+
+  check_input( in );
 }
 
 void search( arguments const& args, method const& meth, 
@@ -205,6 +216,8 @@ void filter( arguments const& args )
       method filter_method;
       try {
         filter_method = i->meth();
+        if ( filter_method.empty() )
+          throw runtime_error( "There are no changes in the method" );
       } 
       catch ( std::exception const& ex ) {
         std::cerr << "Error reading method from input stream: "
@@ -222,6 +235,8 @@ void filter( arguments const& args )
 
       search( args, filter_method, filter_line );
     }
+
+  check_input( std::cin );
 }
 
 int main( int argc, char *argv[] )
@@ -244,6 +259,9 @@ int main( int argc, char *argv[] )
       else if (args.count)
         cout << "Found " << touch_count 
              << (args.filter_mode ? " methods\n" : " touches\n");
+
+      if ( !cout.flush() )
+        throw runtime_error( "Error writing output" );
     }
   catch ( const exception &ex )
     {
-- 
2.43.0


From 21df49aa82010737a955fdbe4c78a9e32945d3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:34 +0000
Subject: [PATCH 094/117] fix: touchsearch: an invalid part end is reported

---
 apps/touchsearch/prog_args.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/apps/touchsearch/prog_args.cpp b/apps/touchsearch/prog_args.cpp
index 8b7c0f1..4018e1f 100644
--- a/apps/touchsearch/prog_args.cpp
+++ b/apps/touchsearch/prog_args.cpp
@@ -233,10 +233,20 @@ bool arguments::generate_pends( arg_parser& ap )
 
   for ( vector<string>::const_iterator
           i( pend_strs.begin() ), e( pend_strs.end() ); i != e; ++i )
-    {
+    try {
       row const g( row(bells) * row(*i) );
+      if ( g.bells() > bells ) {
+        ap.error( make_string() << "Too many bells in the part end '"
+                  << *i << "'" );
+        return false;
+      }
       gens.push_back(g);
     }
+    catch ( exception const& ex ) {
+      ap.error( make_string() << "Unable to parse part end '"
+                << *i << "': " << ex.what() );
+      return false;
+    }
 
   if ( gens.size() )
     pends = group( gens );
-- 
2.43.0


From 31374d12a701207cef7d03afd00285716e664bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:34 +0000
Subject: [PATCH 095/117] fix: methodlib: bad options and failed input or
 output are reported

---
 apps/methodlib/methodlib.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/apps/methodlib/methodlib.cpp b/apps/methodlib/methodlib.cpp
index 0a080d4..0d948b9 100644
--- a/apps/methodlib/methodlib.cpp
+++ b/apps/methodlib/methodlib.cpp
@@ -27,6 +27,7 @@
 
 #include <map>
 #include <iostream>
+#include <stdio.h>
 
 #include "init_val.h"
 #include "args.h"
@@ -142,7 +143,7 @@ bool arguments::validate( arg_parser& ap )
     return false;
   }
 
-  if ( bells == 1 || bells > int(bell::MAX_BELLS) ) {
+  if ( bells < 0 || bells == 1 || bells > int(bell::MAX_BELLS) ) {
     ap.error( make_string() << "The number of bells must be between 2 and " 	              << bell::MAX_BELLS << " (inclusive)" );
     return false;
   }
@@ -161,7 +162,7 @@ bool arguments::validate( arg_parser& ap )
   if (suffixes.empty())
     suffixes.push_back(string());
 
-  if ( suffixstr.size() && titles.size() )
+  if ( (suffixstr.size() || copy_payload) && titles.size() )
     payloads = titles;
 
   return true;
@@ -312,10 +313,19 @@ int main(int argc, char const** argv) {
     while ( read_one_title(args) )
       if (!filter_by_titles(meths, args, out))
         okay = false;
+    if ( cin.bad() || ferror(stdin) ) {
+      cerr << "Error reading titles: the input is unreadable\n";
+      okay = false;
+    }
   }
   else if (args.titles.size())
     okay = filter_by_titles(meths, args, out);
   else
     okay = filter_by_start(meths, args, out);
+
+  if ( !cout.flush() ) {
+    cerr << "Error writing output\n";
+    okay = false;
+  }
   return okay ? 0 : 1;
 }
-- 
2.43.0


From 000a4973ba177dcef2333241e262e1aba09f51ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:34 +0000
Subject: [PATCH 096/117] fix: the last row of a stream is read though no space
 follows

---
 ringing/row.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ringing/row.cpp b/ringing/row.cpp
index fa9048f..94820d3 100644
--- a/ringing/row.cpp
+++ b/ringing/row.cpp
@@ -560,7 +560,11 @@ RINGING_API istream& operator>>(istream& i, row& r)
     vector<bell> bells;  
     bells.reserve(r.bells()); // The only hint we might have available
 
-    while ( i && ( bell::is_symbol( i.peek() ) || i.peek() == '{' ) ) {
+    while ( i ) {
+      // A second peek at the end of the stream would be a failure
+      int const c = i.peek();
+      if ( !bell::is_symbol(c) && c != '{' ) break;
+
       bell b;  
       i >> noskipws >> b;
       bells.push_back(b);
-- 
2.43.0


From 36e4d875584249c001078b19853345e7c6b92051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:34 +0000
Subject: [PATCH 097/117] fix: splices: filter, rows of a method, small stages
 and failed input or output

---
 apps/splices/splices.cpp | 80 ++++++++++++++++++++++++++++++++++------
 1 file changed, 68 insertions(+), 12 deletions(-)

diff --git a/apps/splices/splices.cpp b/apps/splices/splices.cpp
index 9594008..5227643 100644
--- a/apps/splices/splices.cpp
+++ b/apps/splices/splices.cpp
@@ -33,6 +33,8 @@
 #include <map>
 #include <utility>
 #include <fstream>
+#include <stdexcept>
+#include <stdio.h>
 
 RINGING_USING_NAMESPACE
 RINGING_USING_STD
@@ -203,6 +205,8 @@ bool arguments::validate( arg_parser& ap )
       try {  
         meth.push_back
           ( method( *i, bells, make_string() << "Method " << ++meth_num ) );
+        if ( meth.back().empty() )
+          throw runtime_error( "There are no changes in the method" );
       } catch ( const exception& e ) {
         ap.error( make_string() << "Invalid method place notation: "
                   << e.what() );
@@ -308,7 +312,8 @@ bool splices::is_just_le_vars( set<method> const& s ) const
   if (s.size() < 2) return true;
   set<method>::const_iterator first=s.begin(), i=first, e=s.end();
   for (++i; i!=e; ++i) 
-    if ( !equal( i->begin(), i->end()-1, first->begin() ) )
+    if ( i->size() != first->size() ||
+         !equal( i->begin(), i->end()-1, first->begin() ) )
       return false;
   return true;
 }
@@ -497,6 +502,10 @@ string splices::describe_splice( group const& sg ) const
   make_string os;
   os << (sg.size()/2) << "-lead";
 
+  // With so few bells (or no falseness) there's nothing more to say
+  if (sg.bells() < hunts + 2)
+    return os;
+
   int const f2 = factorial(sg.bells() - hunts - 2);
   int const f1 = f2 * (sg.bells() - hunts - 1);
 
@@ -553,10 +562,8 @@ string splices::test_splice( method const& a, vector<row> const& b,
   if ( args.only_n_leads != -1 && sg.size() != args.only_n_leads * 2 )
     return string();
 
-cerr << "Got " << sg.size() << endl;
-
   string desc( describe_splice(sg) );
-  if ( !args.group_splices /* && !args.filter_mode */ ) {
+  if ( !args.group_splices && !args.filter_mode ) {
     cout << name_or_pn(args, a);
     if ( args.meth.size() != 1 ) 
       cout << " / " << b_name;
@@ -608,12 +615,21 @@ void splices::find_splices( library const& lib )
   typedef library::const_iterator const_iterator;
   for ( const_iterator i=lib.begin(), e=lib.end(); i!=e; ++i ) 
   {
-    method m( get_method(*i) );
+    method m;
+    try {
+      m = get_method(*i);
+      if ( m.empty() )
+        throw runtime_error( "There are no changes in the method" );
+    }
+    catch ( exception const& ex ) {
+      cerr << "Error reading method from input stream: " << ex.what() << endl;
+      continue;
+    }
 
     bool filter_ok = false;
 
     if ( args.read_rows || !args.rows_file.empty() ) {
-      test_splice( m, args.rows );
+      filter_ok = !test_splice( m, args.rows ).empty();
     }
 
     else if ( args.meth.size() == 1 ) {
@@ -639,20 +655,41 @@ void splices::find_splices( library const& lib )
     print_splice_groups();
 }
 
-int main( int argc, char *argv[] )
+// The end of the input is not the same as a failure to read it
+static void check_input( istream const& in )
 {
-  bell::set_symbols_from_env();
+  if ( in.bad() || ( &in == &cin && ferror(stdin) ) )
+    throw runtime_error( "The input is unreadable" );
+}
+
+static vector<row> read_rows( istream& in, int bells )
+{
+  vector<row> rows;
+  row r;
+  while ( in >> r ) {
+    if ( r.bells() > bells )
+      throw runtime_error( make_string() << "Too many bells in the row " << r );
+    rows.push_back( row(bells) * r );
+  }
 
-  arguments args(argc, argv);
+  check_input( in );
+  if ( !in.eof() )
+    throw runtime_error( "Invalid row in the rows of the method" );
+  return rows;
+}
 
+static void find_splices( arguments& args )
+{
   splices spl( args );
 
   if ( args.read_rows ) 
-    args.rows.assign( istream_iterator<row>(cin), istream_iterator<row>() );
+    args.rows = read_rows( cin, args.bells );
 
   else if ( !args.rows_file.empty() ) {
-    ifstream in(args.rows_file);
-    args.rows.assign( istream_iterator<row>(in), istream_iterator<row>() );
+    ifstream in( args.rows_file.c_str() );
+    if ( !in )
+      throw runtime_error( "Unable to open file: " + args.rows_file );
+    args.rows = read_rows( in, args.bells );
   }
 
   if ( args.read_rows || args.meth.size() >= 2 ) {
@@ -662,5 +699,24 @@ int main( int argc, char *argv[] )
   else {
     litelib in( args.bells, cin );
     spl.find_splices( in );
+    check_input( cin );
+  }
+
+  if ( !cout.flush() )
+    throw runtime_error( "Error writing output" );
+}
+
+int main( int argc, char *argv[] )
+{
+  try {
+    bell::set_symbols_from_env();
+
+    arguments args(argc, argv);
+    find_splices( args );
+  }
+  catch ( exception const& ex ) {
+    cerr << "Unexpected error: " << ex.what() << endl;
+    return 1;
   }
+  return 0;
 }
-- 
2.43.0


From 1b1ac64156d0538c27c32a2c411af84452cb6edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:43 +0000
Subject: [PATCH 098/117] fix: ringmethod: header, pitch, bells rung early, end
 of the sound and errors

---
 apps/ringmethod/ringmethod.cpp | 119 ++++++++++++++++++++++++---------
 1 file changed, 89 insertions(+), 30 deletions(-)

diff --git a/apps/ringmethod/ringmethod.cpp b/apps/ringmethod/ringmethod.cpp
index d13fac2..1a56338 100644
--- a/apps/ringmethod/ringmethod.cpp
+++ b/apps/ringmethod/ringmethod.cpp
@@ -24,6 +24,8 @@
 #include <cassert>
 #include <vector>
 #include <iterator>
+#include <stdexcept>
+#include <stdio.h>
 
 #include <ringing/bell.h>
 #include <ringing/row.h>
@@ -143,7 +145,7 @@ private:
 tower_sounds::tower_sounds( double tenor_freq, int num, int sample_rate )
   : srate(sample_rate)
 {
-  tenor_freq *= ipower( 2, num / 7 );
+  tenor_freq *= ipower( 2, (num-1) / 7 );
   bellv.reserve(num);
   int n = num % 7;
   double a = 1, ax = 1.02;
@@ -249,9 +251,9 @@ row_player::row_player( tower_sounds& tower, int peal_speed, double hs_lead,
 static void sprintf_uint32le( char* pbuf, uint32_t val )
 {
   pbuf[0] = (val & 0x000000FF) >> 0x0;
-  pbuf[1] = (val & 0x0000FF00) >> 0x4;
-  pbuf[2] = (val & 0x00FF0000) >> 0x8;
-  pbuf[3] = (val & 0xFF000000) >> 0xC;
+  pbuf[1] = (val & 0x0000FF00) >> 0x8;
+  pbuf[2] = (val & 0x00FF0000) >> 0x10;
+  pbuf[3] = (val & 0xFF000000) >> 0x18;
 }
 
 void row_player::header( ostream& os )
@@ -291,51 +293,63 @@ void row_player::header( ostream& os )
   os.write( buf, 44 );
 }
 
+// The loudest that can be represented is better than what overflow gives
+static int16_t clip( double x )
+{
+  return (int16_t)( x > 32767 ? 32767 : x < -32768 ? -32768 : x );
+}
+
+static void write_samples( ostream& os, int16_t const* data, size_t n )
+{
+  if ( !os.write( (char const*)data, 2*n ) )
+    throw runtime_error( "Error writing output" );
+}
+
 void row_player::do_ring( shared_pointer<row_reader_base> const& rr,
                           ostream& os )
 {
   row r = rr->next();  
-  if (r.bells() < tower.bells()) r *= row(tower.bells());
 
-  size_t bell_idx = 0, row_idx = 0;
+  size_t row_idx = 0;
 
   vector< pair<bell, int> > queued_bells;
-  int queued_timestamp = 0;
-
-  //bool have_queued_bell = false;
-  //bell queued_bell;
-  //int queued_timestep;
-  int eof_timestep;
+  int queued_timestamp = INT_MAX;  // when the next of these is due
+  int eof_timestep = 0;
 
-  size_t t = 0;
+  int t = 0;
 
   const size_t datasz = 256;
-  int16_t data_idx = 0, data[datasz];
-  while (r.bells() || t < eof_timestep)
+  size_t data_idx = 0;   
+  int16_t data[datasz];
+  while (r.bells() || queued_bells.size() || t < eof_timestep)
   {
-    if (queued_bells.empty() && r.bells()) {
-      int ts;  // timestamp of last bell in row
+    // Keep at least one row in hand as a bell may strike before the bells
+    // in the row before it.
+    while (r.bells() && queued_bells.size() <= tower.bells()) {
+      if (r.bells() > tower.bells())
+        throw runtime_error( make_string() << "Too many bells in row: " << r );
+      if (r.bells() < tower.bells()) 
+        r *= row(tower.bells());
+
       for (int i = 0; i<r.bells(); ++i) {
         offset const& o = striking[ r[i] ];
         double off = random_normal_deviate
           ( row_idx % 2 ? o.meanpos_b : o.meanpos_h,  
             row_idx % 2 ? o.stddev_b  : o.stddev_h );
         double posn = i + row_idx * tower.bells() + row_idx/2 * hs_lead + off;
-        ts = (int)( posn * bell_sep * tower.sample_rate() );
-        if (ts<0) ts = 0;
+        int ts = (int)( posn * bell_sep * tower.sample_rate() );
+        if (ts<t) ts = t;
         if (ts<queued_timestamp) queued_timestamp = ts;
+        if (ts + 5 * tower.sample_rate() > eof_timestep)
+          eof_timestep = ts + 5 * tower.sample_rate();
         queued_bells.push_back( make_pair( r[i], ts ) );
       }
 
       row_idx++; // get next row
       r = rr->next();  
-      if (r.bells() == 0) 
-        eof_timestep = ts + 5 * tower.sample_rate();
-      else if (r.bells() < tower.bells()) 
-        r *= row(tower.bells());
     }
  
-    if (queued_bells.size() && queued_timestamp == t) {
+    if (queued_timestamp == t) {
       queued_timestamp = INT_MAX;
       for (int i=0; i < queued_bells.size(); ) {
         if (queued_bells[i].second == t) {
@@ -349,14 +363,16 @@ void row_player::do_ring( shared_pointer<row_reader_base> const& rr,
       }
     }
 
-    data[data_idx] = (int16_t)( tower.sample() * 1000 );
+    data[data_idx] = clip( tower.sample() * 1000 );
     ++data_idx;  ++t;
 
     if (data_idx == datasz) {
-      os.write( (char const*)data, 2*datasz );
+      write_samples( os, data, datasz );
       data_idx = 0;
     }
   }
+
+  write_samples( os, data, data_idx );
 }
 
 class double_opt : public option
@@ -466,15 +482,15 @@ bool offset_opt::parse_meandev( string const& meandev, arg_parser const& ap,
 
   if ( comma != string::npos ) {
     try { 
-      stddev = lexical_cast<double>( meandev.substr(comma) );
+      stddev = lexical_cast<double>( meandev.substr(comma+1) );
     } catch ( bad_lexical_cast const& ) {
       ap.error( make_string() << "Invalid deviation: \"" 
-                              << meandev.substr(comma) << "\"" );
+                              << meandev.substr(comma+1) << "\"" );
       return false;
     }
     if (stddev < 0) {
       ap.error( make_string() << "Negative deviation: \"" 
-                              << meandev.substr(comma) << "\"" );
+                              << meandev.substr(comma+1) << "\"" );
       return false;
     }
   }
@@ -580,6 +596,28 @@ void arguments::bind( arg_parser& p )
 
 bool arguments::validate( arg_parser& ap )
 {
+  if ( bells <= 0 || bells > int(bell::MAX_BELLS) ) {
+    ap.error( make_string() << "The number of bells must be between 1 and "
+              << bell::MAX_BELLS );
+    return false;
+  }
+
+  if ( sample_rate <= 0 || peal_speed <= 0 || tenor_nominal <= 0 ) {
+    ap.error( "The sample rate, peal speed and frequency must be positive" );
+    return false;
+  }
+
+  if ( default_deviation < 0 ) {
+    ap.error( "The deviation must not be negative" );
+    return false;
+  }
+
+  // There need to be some samples between one bell and the next
+  if ( peal_speed * 60 / 2500.0 / (bells*2+1) * sample_rate <= 2.0 ) {
+    ap.error( "The sample rate is too low for the peal speed" );
+    return false;
+  }
+
   for ( bell b=0; b<bells; ++b )
     if ( striking.find(b) == striking.end() ) 
       striking[b] = offset();
@@ -595,7 +633,7 @@ bool arguments::validate( arg_parser& ap )
   return true;
 }
 
-int main(int argc, char* argv[])
+static int ring( int argc, char* argv[] )
 {
   bell::set_symbols_from_env();
 
@@ -626,5 +664,26 @@ int main(int argc, char* argv[])
   row_player player( tower, args.peal_speed, args.hs_lead, args.striking );
   player.header( cout );
   player.ring( istream_iterator<row>(cin), istream_iterator<row>(), cout );
+
+  // The end of the input is not the same as a failure to read it
+  if ( cin.bad() || ferror(stdin) )
+    throw runtime_error( "The input is unreadable" );
+  if ( !cin.eof() )
+    throw runtime_error( "Invalid row in the input" );
+
+  if ( !cout.flush() )
+    throw runtime_error( "Error writing output" );
+
+  return 0;
 }
 
+int main(int argc, char* argv[])
+{
+  try {
+    return ring( argc, argv );
+  }
+  catch ( exception const& ex ) {
+    cerr << "Unexpected error: " << ex.what() << endl;
+    return 1;
+  }
+}
-- 
2.43.0


From b933aa186db528ead4114de00d7db13699abe418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:31 +0000
Subject: [PATCH 099/117] fix: report memory running out while finishing PDF

---
 ringing/print_pdf.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ringing/print_pdf.h b/ringing/print_pdf.h
index b7c51c8..9857a5b 100644
--- a/ringing/print_pdf.h
+++ b/ringing/print_pdf.h
@@ -95,7 +95,10 @@ private:
 public:
   pdf_file(ostream& o, bool is_landscape = false, 
            int pagewidth = 590, int pageheight = 835);
- ~pdf_file() { try { end(); } catch(...) {} }
+ ~pdf_file() {
+    try { end(); }
+    catch(...) { try { dest.setstate(ios::badbit); } catch(...) {} }
+  }
 
   void start();
   void end();
-- 
2.43.0


From fefa967e2295482964ef4800f96c31339f88ccdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:31 +0000
Subject: [PATCH 100/117] fix: printmethod: a column that is fitted holds a
 lead at least

---
 ringing/printm.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ringing/printm.cpp b/ringing/printm.cpp
index aae9104..83ae88e 100644
--- a/ringing/printm.cpp
+++ b/ringing/printm.cpp
@@ -265,6 +265,7 @@ void printmethod::fit_to_space(const dimension& width,
   }
 
   leads_per_column -= 2;
+  if(leads_per_column < 1) leads_per_column = 1;
   if(vgap_mode) {
     rows_per_column = lead;
     sets_per_page = leads_per_column;
-- 
2.43.0


From 1534a655f9d81163152106829894a42d48a76584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:31 +0000
Subject: [PATCH 101/117] fix: dimension: refuse zero denominators and numbers
 out of range

---
 ringing/dimension.cpp | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/ringing/dimension.cpp b/ringing/dimension.cpp
index cc9f2aa..133dc26 100644
--- a/ringing/dimension.cpp
+++ b/ringing/dimension.cpp
@@ -25,8 +25,10 @@
 
 #if RINGING_OLD_C_INCLUDES
 #include <ctype.h>
+#include <limits.h>
 #else
 #include <cctype>
+#include <climits>
 #endif
 #include <ringing/streamutils.h>
 #include <ringing/dimension.h>
@@ -87,6 +89,16 @@ string& dimension::write(string& s) const
 }
 
 
+// Read the digits which follow a number
+static bool read_digits(const char*& s, int& a)
+{
+  for(; isdigit(*s); s++) {
+    if(a > (INT_MAX - 9) / 10) return false;
+    a = 10*a + (*s - '0');
+  }
+  return true;
+}
+
 void dimension::read(const char *s)
 {
   int a, b, c;
@@ -100,24 +112,30 @@ void dimension::read(const char *s)
   while(isspace(*s)) s++;
   if(!isdigit(*s)) RINGING_THROW_OR_RETURN_VOID( bad_format() );
   a = *s++ - '0';
-  while(isdigit(*s)) a = 10*a + (*s++ - '0');
+  if(!read_digits(s, a)) RINGING_THROW_OR_RETURN_VOID( bad_format() );
   if(*s == '.') { // We have a number in decimal format
     s++;
     b = 1;
-    while(isdigit(*s)) { a = 10*a + (*s++ - '0'); b = 10*b; }
+    for(const char *t = s; isdigit(*t); t++) {
+      if(b > INT_MAX / 10) RINGING_THROW_OR_RETURN_VOID( bad_format() );
+      b = 10*b;
+    }
+    if(!read_digits(s, a)) RINGING_THROW_OR_RETURN_VOID( bad_format() );
     read_units(s);
     n = negative ? -a : a; d = b;
   } else { // Look for a fractional part
     while(isspace(*s)) s++;
     if(isdigit(*s)) { // Found a fractional part
       b = *s++ - '0';
-      while(isdigit(*s)) b = 10*b + (*s++ - '0');
+      if(!read_digits(s, b)) RINGING_THROW_OR_RETURN_VOID( bad_format() );
       while(isspace(*s)) s++;
       if(*s++ != '/') RINGING_THROW_OR_RETURN_VOID( bad_format() );
       while(isspace(*s)) s++;
       if(!isdigit(*s)) RINGING_THROW_OR_RETURN_VOID( bad_format() );
       c = *s++ - '0';
-      while(isdigit(*s)) c = 10*c + (*s++ - '0');
+      if(!read_digits(s, c)) RINGING_THROW_OR_RETURN_VOID( bad_format() );
+      if(c == 0 || (double(a) * c) + b > INT_MAX) 
+	RINGING_THROW_OR_RETURN_VOID( bad_format() );
       read_units(s);
       n = a * c + b; d = c;
       if(negative) n = -n;
@@ -126,7 +144,8 @@ void dimension::read(const char *s)
       while(isspace(*s)) s++;
       if(!isdigit(*s)) RINGING_THROW_OR_RETURN_VOID( bad_format() );
       c = *s++ - '0';
-      while(isdigit(*s)) c = 10*c + (*s++ - '0');
+      if(!read_digits(s, c)) RINGING_THROW_OR_RETURN_VOID( bad_format() );
+      if(c == 0) RINGING_THROW_OR_RETURN_VOID( bad_format() );
       read_units(s);
       n = negative ? -a : a; d = c;     
     } else { // Just an integer
-- 
2.43.0


From 814e36686ff2a4a0859a14aad539339f59801d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:31 +0000
Subject: [PATCH 102/117] fix: psline: numbers, sizes and starting rows that
 make no sense, place bells, fit, EPS pages and failed output

---
 apps/psline/psline.cpp | 168 ++++++++++++++++++++++++++++++-----------
 1 file changed, 125 insertions(+), 43 deletions(-)

diff --git a/apps/psline/psline.cpp b/apps/psline/psline.cpp
index 9759b55..97ab35c 100644
--- a/apps/psline/psline.cpp
+++ b/apps/psline/psline.cpp
@@ -27,6 +27,8 @@
 #include <fstream>
 #endif
 #include <string>
+#include <stdexcept>
+#include <cmath>
 #include <ringing/row.h>
 #include <ringing/method.h>
 #include <ringing/printm.h>
@@ -63,7 +65,6 @@ struct arguments {
   int placebells;
   bool landscape;
   dimension width, height;
-  bool fit;
   bool vgap_mode;
   dimension fitwidth, fitheight;
   dimension xspace, yspace;
@@ -84,7 +85,16 @@ struct arguments {
 arguments args;
 string progname;
 
-inline int divu(int a, int b) { return (a - 1) / b + 1; }
+inline int divu(int a, double b) 
+  { return (b >= a) ? 1 : (a - 1) / static_cast<int>(b) + 1; }
+
+// The number of rows in a number of leads
+int rows_of(int leads, const method& m)
+{
+  if(leads > 1000000 / static_cast<int>(m.length()))
+    throw runtime_error("There are too many leads");
+  return leads * m.length();
+}
 
 bool parse_int(const string& arg, int& i)
 {
@@ -97,12 +107,27 @@ bool parse_int(const string& arg, int& i)
   return true;
 }
 
-bool parse_float(const string& arg, float& f)
+bool parse_positive_int(const string& arg, int& i)
+{
+  if(!parse_int(arg, i)) return false;
+  if(i <= 0 || i > 1000000) {
+    cerr << "Number out of range: \"" << arg << "\"\n";
+    return false;
+  }
+  return true;
+}
+
+// Parse a font size, in points
+bool parse_font_size(const string& arg, float& f)
 {
   try {
     f = lexical_cast<float>(arg);
   } catch(bad_lexical_cast const&) {
-    cerr << "Invalid integer argument: \"" << arg << "\"\n";
+    cerr << "Invalid font size: \"" << arg << "\"\n";
+    return false;
+  }
+  if(!(f >= 0.1f && f <= 10000)) {
+    cerr << "Font size out of range: \"" << arg << "\"\n";
     return false;
   }
   return true;
@@ -117,6 +142,32 @@ bool parse_dimension(const string& arg, dimension& d)
     cerr << "Invalid dimension: \"" << arg << "\"\n";
     return false;
   }
+  if(fabs(d.in_points()) > 100000) {
+    cerr << "Dimension out of range: \"" << arg << "\"\n";
+    return false;
+  }
+  return true;
+}
+
+// The same, but it may not be negative
+bool parse_size(const string& arg, dimension& d)
+{
+  if(!parse_dimension(arg, d)) return false;
+  if(d.in_points() < 0) {
+    cerr << "Dimension out of range: \"" << arg << "\"\n";
+    return false;
+  }
+  return true;
+}
+
+// The same, but it must be positive
+bool parse_length(const string& arg, dimension& d)
+{
+  if(!parse_size(arg, d)) return false;
+  if(d == 0) {
+    cerr << "Dimension out of range: \"" << arg << "\"\n";
+    return false;
+  }
   return true;
 }
 
@@ -314,47 +365,44 @@ bool myopt::process(const string& arg, const arg_parser& ap) const
       args.font = arg;
       break;
     case 's' :
-      if(!parse_float(arg, f)) return false;
+      if(!parse_font_size(arg, f)) return false;
       args.font_size = static_cast<int>(f * 10);
       break;
     case 'i' :
       args.rows_per_column = 0;
-      return parse_int(arg, args.leads_per_column);
+      return parse_positive_int(arg, args.leads_per_column);
     case 'I' :
       args.leads_per_column = 0;
-      return parse_int(arg, args.rows_per_column);
+      return parse_positive_int(arg, args.rows_per_column);
     case 'j' :
       args.total_rows = 0;
-      return parse_int(arg, args.total_leads);
+      return parse_positive_int(arg, args.total_leads);
     case 'J' :
       args.total_leads = 0;
-      return parse_int(arg, args.total_rows);
+      return parse_positive_int(arg, args.total_rows);
     case 'g' :
-      return parse_int(arg, args.pages);
+      return parse_positive_int(arg, args.pages);
     case 'd' :
-      return parse_int(arg, args.sets_per_page);
+      return parse_positive_int(arg, args.sets_per_page);
     case 'k' :
-      return parse_int(arg, args.columns_per_set);
+      return parse_positive_int(arg, args.columns_per_set);
     case 'x' :
-      args.fit = false;
-      return parse_dimension(arg, args.xspace);
+      return parse_size(arg, args.xspace);
     case 'y' :
-      args.fit = false;
-      return parse_dimension(arg, args.yspace);
+      return parse_size(arg, args.yspace);
     case 'h' :
       return parse_dimension(arg, args.hgap);
     case 'v' :
       return parse_dimension(arg, args.vgap);
     case 'F' :
-      args.fit = true;
       if(!arg.empty()) {
 	s = arg.begin();
-	if(!parse_dimension(next_bit(arg, s), args.fitwidth)) return false;
+	if(!parse_length(next_bit(arg, s), args.fitwidth)) return false;
 	if(s == arg.end()) {
 	  cerr << "Not enough arguments: \"" << arg << "\"\n";
 	  return false;
 	}
-	if(!parse_dimension(next_bit(arg, s), args.fitheight)) return false;
+	if(!parse_length(next_bit(arg, s), args.fitheight)) return false;
 	if(s != arg.end()) {
 	  cerr << "Too many arguments: \"" << arg << "\"\n";
 	  return false;
@@ -363,12 +411,12 @@ bool myopt::process(const string& arg, const arg_parser& ap) const
       break;
     case 'S' :
       s = arg.begin();
-      if(!parse_dimension(next_bit(arg, s), args.width)) return false;
+      if(!parse_length(next_bit(arg, s), args.width)) return false;
       if(s == arg.end()) {
 	 cerr << "Not enough arguments: \"" << arg << "\"\n";
 	 return false;
       }
-      if(!parse_dimension(next_bit(arg, s), args.height)) return false;
+      if(!parse_length(next_bit(arg, s), args.height)) return false;
       if(s != arg.end()) {
 	cerr << "Too many arguments: \"" << arg << "\"\n";
 	return false;
@@ -380,10 +428,14 @@ bool myopt::process(const string& arg, const arg_parser& ap) const
       if(!arg.empty()) {
 	s = arg.begin();
         if(!parse_int(next_bit(arg, s), args.grid)) return false;
+	if(args.grid < 1 || args.grid > 2) {
+	  cerr << "Unrecognised style: \"" << arg << "\"\n";
+	  return false;
+	}
 	if(s != arg.end() && !parse_colour(next_bit(arg, s), 
 					   args.grid_style.col)) return false;
-	if(s != arg.end() && !parse_dimension(next_bit(arg, s), 
-					      args.grid_style.width))
+	if(s != arg.end() && !parse_size(next_bit(arg, s), 
+					 args.grid_style.width))
 	  return false;
 	if(s != arg.end()) {
 	  cerr << "Too many arguments: \"" << arg << "\"\n";
@@ -437,7 +489,7 @@ bool myopt::process(const string& arg, const arg_parser& ap) const
 	      return false;
 	    }
 	    if(!parse_colour(next_bit(arg, s), st.col)) return false;
-	    if(s != arg.end() && !parse_dimension(next_bit(arg, s), st.width))
+	    if(s != arg.end() && !parse_size(next_bit(arg, s), st.width))
 	      return false;
 	    if(s != arg.end()) {
 	      cerr << "Too many arguments: \"" << arg << "\"\n";
@@ -467,7 +519,8 @@ bool myopt::process(const string& arg, const arg_parser& ap) const
 	  }
 	  args.placebells = b;
 	}
-      }
+      } else
+	args.placebells = -3;
       break;
     case 't' :
       if(!arg.empty()) {
@@ -476,7 +529,7 @@ bool myopt::process(const string& arg, const arg_parser& ap) const
 	if(s != arg.end()) {
 	  args.title_style.font = next_bit(arg, s);
 	  if(s != arg.end()) {
-	    if(!parse_float(next_bit(arg, s), f))
+	    if(!parse_font_size(next_bit(arg, s), f))
 	      return false;
 	    args.title_style.size = static_cast<int>(f * 10);
 	    if(s != arg.end()) {
@@ -496,7 +549,7 @@ bool myopt::process(const string& arg, const arg_parser& ap) const
       args.title_style.font = arg;
       break;
     case '\002' :
-      if(!parse_float(arg, f)) return false;
+      if(!parse_font_size(arg, f)) return false;
       args.title_style.size = static_cast<int>(f * 10);
       break;
     case '\003' :
@@ -557,8 +610,10 @@ bool myopt::process(const string& arg, const arg_parser& ap) const
 	if(!parse_int(next_bit(arg, s), a)) return false;
 	if(s != arg.end()) {
 	  if(!parse_int(next_bit(arg, s), b)) return false;
-	  if(s != arg.end())
+	  if(s != arg.end()) {
 	    cerr << "Too many arguments: \"" << arg << "\"\n";
+	    return false;
+	  }
 	}
 	args.rules.push_back(pair<int,int>(a,b));
       } else
@@ -582,7 +637,6 @@ int main(int argc, char *argv[])
   args.placebells = -2;
   args.numbers = true;
   args.format = ps;
-  args.fit = true;
   args.vgap_mode = false;
   args.title_style.font = "Helvetica";
   args.title_style.size = 180;
@@ -630,6 +684,10 @@ int main(int argc, char *argv[])
       if(s == args.library_name.end() 
 	 || !parse_int(string(args.library_name.begin(), s), args.bells)) 
         { p.usage(); return 1; }
+      if(args.bells < 1 || args.bells > int(bell::MAX_BELLS)) {
+	cerr << argv[0] << ": Number of bells out of range" << endl;
+	return 1;
+      }
       args.library_name = string(++s, args.library_name.end());
     };
   }
@@ -665,7 +723,7 @@ int main(int argc, char *argv[])
 
     // Set up the things which affect the fitting (and other things too)
     if(args.total_leads)
-      pm.total_rows = args.total_leads * m.length();
+      pm.total_rows = rows_of(args.total_leads, m);
     else if(args.total_rows)
       pm.total_rows = args.total_rows;
     row lh = m.lh();
@@ -716,14 +774,14 @@ int main(int argc, char *argv[])
 	  pm.rules.push_back(pair<int,int>(m.length(),0));
       }
     }
-    if(args.placebells == -2) {
+    if(args.placebells == -2 || args.placebells == -3) {
       bell b;
       pm.placebells = -1;
       for(b = 0; b < m.bells(); b = b + 1)
 	if(lh[b] != b && pm.opt.lines.find(b) != pm.opt.lines.end()) {
 	  if(pm.placebells == -1)
 	    pm.placebells = b;
-	  else {
+	  else if(args.placebells == -2) {
 	    pm.placebells = -1;
 	    break;
 	  }
@@ -736,13 +794,18 @@ int main(int argc, char *argv[])
     else
       pm.pn_mode = static_cast<printmethod::pn_mode_t>(args.pn_mode);
 	pm.calls = args.calls;
-	if (args.rounds.length()==m.bells())
-	{
-		pm.startrow(args.rounds);
-	}
+    if(!args.rounds.empty()) {
+      row r(args.rounds);
+      if(r.bells() != m.bells()) {
+	cerr << argv[0] << ": The starting row has the wrong number of bells"
+	     << endl;
+	return 1;
+      }
+      pm.startrow(r);
+    }
     
     // Set the space to fit to
-    if(args.fit && args.fitwidth == 0) {
+    if(args.fitwidth == 0) {
       args.fitwidth.set_float(args.width.in_points() - 72, 1);
       args.fitheight.set_float(args.height.in_points() - 72, 1);
     }
@@ -757,7 +820,7 @@ int main(int argc, char *argv[])
     // Now fit to the space
     if(args.leads_per_column || args.rows_per_column) {
       if(args.leads_per_column)
-	pm.rows_per_column = args.leads_per_column * m.length();
+	pm.rows_per_column = rows_of(args.leads_per_column, m);
       else if(args.rows_per_column)
 	pm.rows_per_column = args.rows_per_column;
       if(args.columns_per_set) {
@@ -767,7 +830,7 @@ int main(int argc, char *argv[])
 	} else {
 	  if(!args.pages) args.pages = 1;
 	  pm.sets_per_page = divu(pm.total_rows, 
-				  args.pages * pm.columns_per_set 
+				  double(args.pages) * pm.columns_per_set 
 				  * pm.rows_per_column);
 	}
       } else {
@@ -775,7 +838,7 @@ int main(int argc, char *argv[])
 	pm.sets_per_page = args.sets_per_page;
 	if(!args.pages) args.pages = 1;
 	pm.columns_per_set = divu(pm.total_rows,
-				  args.pages * pm.sets_per_page
+				  double(args.pages) * pm.sets_per_page
 				  * pm.rows_per_column);
       }
       pm.scale_to_space(args.fitwidth, args.fitheight, args.numbers ? 1.f : 2.f);
@@ -786,7 +849,7 @@ int main(int argc, char *argv[])
 	pm.sets_per_page = args.sets_per_page;
 	if(!args.pages) args.pages = 1;
 	pm.rows_per_column = divu(pm.total_rows,
-				  args.pages * pm.columns_per_set
+				  double(args.pages) * pm.columns_per_set
 				  * pm.sets_per_page * m.length())
 	  * m.length();
 	pm.scale_to_space(args.fitwidth, args.fitheight, 
@@ -797,14 +860,15 @@ int main(int argc, char *argv[])
 	  pm.sets_per_page = args.sets_per_page;
 	  if(!args.pages) args.pages = 1;
 	  pm.columns_per_set = divu(pm.total_rows,
-				    args.pages * pm.sets_per_page
+				    double(args.pages) * pm.sets_per_page
 				    * pm.rows_per_column);
 	  pm.scale_to_space(args.fitwidth, args.fitheight, 
 			    args.numbers ? 1.f : 2.f);
 	} else {
 	  if(!args.pages) args.pages = 1;
           int tr = pm.total_rows;
-	  pm.total_rows = divu(tr, args.pages * m.length()) * m.length();
+	  pm.total_rows = divu(tr, double(args.pages) * m.length()) 
+	    * m.length();
 	  pm.fit_to_space(args.fitwidth, args.fitheight, 
 			  args.vgap_mode, args.numbers ? 1.f : 2.f);
 	  pm.total_rows = tr;
@@ -826,6 +890,18 @@ int main(int argc, char *argv[])
       pm.opt.grid_style = args.grid_style;
     }
 
+    if(pm.opt.xspace.in_points() <= 0 || pm.opt.yspace.in_points() <= 0
+       || pm.opt.style.size <= 0) {
+      cerr << argv[0] << ": There is not enough room for the method" << endl;
+      return 1;
+    }
+    if(args.format == eps && pm.sets_per_page
+       && divu(pm.total_rows, double(pm.rows_per_column) * pm.columns_per_set)
+         > pm.sets_per_page) {
+      cerr << argv[0] << ": An EPS file can only have one page" << endl;
+      return 1;
+    }
+
     // Get the bounding box of the image
     float blx, bly, urx, ury;
     pm.get_bbox(blx, bly, urx, ury);
@@ -892,6 +968,12 @@ int main(int argc, char *argv[])
 	       text_style::centre, args.title_style);
     pm.print(*pp);
     delete pp;
+    os->flush();
+    if(ofs.is_open()) ofs.close();
+    if(!*os) {
+      cerr << argv[0] << ": Error writing output" << endl;
+      return 1;
+    }
   }
 #if RINGING_USE_EXCEPTIONS
   catch(exception& e) {
-- 
2.43.0


From 98a3c7e666f28be9962dcca39488873d4e24e224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:13 +0000
Subject: [PATCH 103/117] fix: fextent: weightings of zero and rounding errors
 broke the search's bookkeeping

---
 apps/fextent/fextent.cpp | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/apps/fextent/fextent.cpp b/apps/fextent/fextent.cpp
index 428a4a8..1d75844 100644
--- a/apps/fextent/fextent.cpp
+++ b/apps/fextent/fextent.cpp
@@ -74,6 +74,12 @@ static bool are_tenors_over( row const& r )
   return r[b-1] == b-1 && r[b-3] == b-2;
 }
 
+// Are these scores equal, up to rounding errors?
+static bool are_close( double x, double y )
+{
+  return fabs(x - y) <= 1E-6 * ( 1 + fabs(x) + fabs(y) );
+}
+
 void status_out( string const& msg )
 {
   static size_t status_size;
@@ -310,6 +316,10 @@ bool weighting_opt::process( const string& arg, const arg_parser& ap ) const
     ap.error( make_string() << "Unknown option: '" << opt << "'" );
     return false;
   }
+  if ( !( fabs(v) <= 1E6 ) ) {
+    ap.error( make_string() << "Weighting out of range: '" << arg.substr(pos+1) << "'" );
+    return false;
+  }
 
   return true;
 }
@@ -1018,7 +1028,7 @@ bool state::check() const
     return false;
   }
 
-  if ( realsc != sc ) {
+  if ( !are_close( realsc, sc ) ) {
     cerr << "ERROR: Score mismatch: actual " << realsc << "; expected " << sc << endl;
     return false;
   }
@@ -1085,20 +1095,18 @@ private:
   // Row status
   //
   bool is_added( row_t const& r ) const
-    { map<row_t, double, row_t::cmp>::const_iterator i = rdiff.find(r);
+    { map<row_t, int, row_t::cmp>::const_iterator i = rdiff.find(r);
       return i != rdiff.end() && i->second > 0; }
   bool is_removed( row_t const& r ) const 
-    { map<row_t, double, row_t::cmp>::const_iterator i = rdiff.find(r);
+    { map<row_t, int, row_t::cmp>::const_iterator i = rdiff.find(r);
       return i != rdiff.end() && i->second < 0; }
 
-  // TODO:  It is bad to assume that  (double(w) - double(w) == 0.0)
-
   void do_add_row( row_t const& r )
-    { double const w( s.weight[ r.index() ] ); 
-      d += w; if ( (rdiff[r] += w) == 0 ) rdiff.erase(r); }
+    { d += s.weight[ r.index() ]; 
+      if ( ++rdiff[r] == 0 ) rdiff.erase(r); }
   void do_rm_row( row_t const& r )
-    { double const w( s.weight[ r.index() ] ); 
-      d -= w; if ( (rdiff[r] -= w) == 0 ) rdiff.erase(r); }
+    { d -= s.weight[ r.index() ]; 
+      if ( --rdiff[r] == 0 ) rdiff.erase(r); }
 
   //
   // General linkage
@@ -1124,7 +1132,7 @@ private:
   //
   state const& s;
 
-  map<row_t, double, row_t::cmp> rdiff; // +1 to add, -1 to remove
+  map<row_t, int, row_t::cmp> rdiff; // +1 to add, -1 to remove
   map<row_t, pair<int, size_t>, row_t::cmp> ldiff;
   double d;
 };
@@ -1206,15 +1214,15 @@ bool state::perturbation::check_delta() const
 {
   double real_delta(0);
 
-  for ( map<row_t, double, row_t::cmp>::const_iterator 
+  for ( map<row_t, int, row_t::cmp>::const_iterator 
 	  i(rdiff.begin()), e(rdiff.end());  i != e;  ++i )
-    real_delta += i->second;
+    real_delta += i->second * s.weight[ i->first.index() ];
 
   for ( map< row_t, pair<int, size_t>, row_t::cmp>::const_iterator 
 	  i(ldiff.begin()), e(ldiff.end());  i != e;  ++i )
     real_delta += i->second.first * s.link_weight;
 
-  return real_delta == d;
+  return are_close( real_delta, d );
 }
 
 void state::perturbation::try_add_qset( row_t const& r )
@@ -1399,7 +1407,7 @@ void state::perturbation::commit2( state& s, lead_state add, lead_state rm )
 {
   DEBUG( "Committing -- delta " << d );
 
-  for ( map<row_t, double, row_t::cmp>::const_iterator 
+  for ( map<row_t, int, row_t::cmp>::const_iterator 
 	  i(rdiff.begin()), e(rdiff.end());  i != e;  ++i )
     {
       DEBUG( "Commit row: " << i->first.index() << ", score " << i->second );
@@ -1408,9 +1416,7 @@ void state::perturbation::commit2( state& s, lead_state add, lead_state rm )
       if ( i->second > 0 && s.is_absent(i->first) ||
 	   i->second < 0 && s.is_present(i->first) )
 	{
-	  // TODO Gah! More assertions on floating equalities.  Bad, bad, bad.
-	  assert( s.weight[ i->first.index() ] == i->second * sign(i->second) );
-	  s.sc += i->second;
+	  s.sc += sign(i->second) * s.weight[ i->first.index() ];
 	  s.len += sign(i->second);
 	}
 
-- 
2.43.0


From 22ec98e1955be80004be5d9711abc8238a809f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:13 +0000
Subject: [PATCH 104/117] fix: fextent: refuse part ends, required rows, calls
 and methods that make no sense or are false; report failed output

---
 apps/fextent/fextent.cpp | 76 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 68 insertions(+), 8 deletions(-)

diff --git a/apps/fextent/fextent.cpp b/apps/fextent/fextent.cpp
index 1d75844..1b4d4cf 100644
--- a/apps/fextent/fextent.cpp
+++ b/apps/fextent/fextent.cpp
@@ -165,6 +165,7 @@ struct arguments
 private:
   void bind( arg_parser& p );
   bool validate( arg_parser& p );
+  bool is_allowed( row const& r ) const;
   bool generate_pends( arg_parser& ap );
   bool generate_required( arg_parser& ap );
   bool generate_calls( arg_parser& ap );
@@ -190,6 +191,19 @@ arguments::arguments( int argc, char** argv )
     exit(1);
 }
 
+// Can this be the head of a lead (or course) or a part end?
+bool arguments::is_allowed( row const& r ) const
+{
+  if ( r.bells() != bells || !principle && r[0] != 0 
+       || in_course && r.sign() == -1 )
+    return false;
+
+  if ( tenors_together && !is_tt(r) )
+    return false;
+
+  return true;
+}
+
 bool arguments::generate_pends( arg_parser& ap )
 {
   vector<row> gens; 
@@ -199,6 +213,10 @@ bool arguments::generate_pends( arg_parser& ap )
 	  i( pend_strs.begin() ), e( pend_strs.end() ); i != e; ++i )  
     {
       row const g( row(bells) * row(*i) );
+      if ( !is_allowed(g) ) {
+	ap.error( make_string() << "Invalid part end: '" << *i << "'" );
+	return false;
+      }
 
       // This is hopelessly broken.  Let's just admit it and bail out.
       if ( linkage && whole_courses && g[bells-1] != bells-1 ) {
@@ -232,6 +250,11 @@ bool arguments::generate_required( arg_parser& ap )
 		<< r << "' required in in-course composition" );
       return false;
     }
+    // A course may be given by the head of any of its leads
+    if ( r.bells() != bells || !principle && r[0] != 0 ) {
+      ap.error( make_string() << "Invalid required row: '" << *i << "'" );
+      return false;
+    }
     required.push_back(r);
   }
   return true;
@@ -258,6 +281,10 @@ bool arguments::generate_calls( arg_parser& ap )
 		  << ch << "' specified for in-course composition" );
 	return false;
       }
+      if ( !principle && ( meth.lh() * meth.back() * ch )[0] != 0 ) {
+	ap.error( make_string() << "Call '" << ch << "' affects the treble" );
+	return false;
+      }
       calls.push_back( ch );
     } 
     catch ( exception const& ex ) {
@@ -297,6 +324,10 @@ bool weighting_opt::process( const string& arg, const arg_parser& ap ) const
     ap.error( make_string() << "Invalid weighting: '" << arg.substr(pos+1) << "'" );
     return false;
   }
+  if ( !( fabs(v) <= 1E6 ) ) {
+    ap.error( make_string() << "Weighting out of range: '" << arg.substr(pos+1) << "'" );
+    return false;
+  }
 
   string opt( arg, 0, pos );
 
@@ -316,10 +347,6 @@ bool weighting_opt::process( const string& arg, const arg_parser& ap ) const
     ap.error( make_string() << "Unknown option: '" << opt << "'" );
     return false;
   }
-  if ( !( fabs(v) <= 1E6 ) ) {
-    ap.error( make_string() << "Weighting out of range: '" << arg.substr(pos+1) << "'" );
-    return false;
-  }
 
   return true;
 }
@@ -445,6 +472,27 @@ bool arguments::validate( arg_parser& ap )
     return false;
   }
 
+  if ( tenors_together && !whole_courses ) {
+    ap.error( "Searching for tenors-together leads, rather than whole courses, "
+	      "is not supported" );
+    return false;
+  }
+
+  if ( !principle && meth.lh()[0] != 0 ) {
+    ap.error( "The method does not have a fixed treble" );
+    return false;
+  }
+
+  if ( linkage && in_course && meth.lh().sign() == -1 ) {
+    ap.error( "The method does not have an in-course lead head" );
+    return false;
+  }
+
+  if ( num_steps <= 0 ) {
+    ap.error( "The number of iterations must be positive" );
+    return false;
+  }
+
   if ( !generate_pends( ap ) ) 
     return false;
 
@@ -767,8 +815,14 @@ void state::init_req( const method& m, vector<row> const& required_rows )
       {
 	row const lh( m.lh() );
 	row r2(*i);
-	while ( r2[bells - 1] != bells - 1 )
-	  r2 = lh * r2;
+	if ( flags & whole_courses ) {
+	  for ( int k=0; k < courselen && r2[bells - 1] != bells - 1; ++k )
+	    r2 = r2 * lh;
+	  if ( r2[bells - 1] != bells - 1 
+	       || (flags & tenors_together) && !is_tt(r2) )
+	    throw runtime_error
+	      ( "Error: a required row is not in any course" );
+	}
 	r = mt->find(r2);
       }
 
@@ -779,7 +833,8 @@ void state::init_req( const method& m, vector<row> const& required_rows )
       for ( vector<fch_t>::const_iterator fi( fchs.begin() ), fe( fchs.end() );
 	    fi != fe; ++fi ) {
 	row_t f( r * *fi );
-	if ( find( req_rows.begin(), req_rows.end(), f ) != req_rows.end() )
+	if ( f == r 
+	     || find( req_rows.begin(), req_rows.end(), f ) != req_rows.end() )
 	  throw runtime_error
 	    ( "Error: the required rows conflict with the falseness" );
       }
@@ -940,7 +995,7 @@ state::state( const method& m, int flags, const group& pgrp,
   nh = flags & principle ? 0 : 1;
 
   if ( flags & whole_courses )
-    nw = flags & tenors_together ? 5 : m.bells() - 1 - nh;
+    nw = flags & tenors_together && m.bells() > 6 ? 5 : m.bells() - 1 - nh;
   else
     nw = m.bells() - nh;
   
@@ -1616,6 +1671,11 @@ int main( int argc, char* argv[] )
     if ( args.quiet && !args.print_leads )
       cout << mx << endl;
 
+    if ( !cout.flush() ) {
+      cerr << argv[0] << ": Error writing output" << endl;
+      return 1;
+    }
+
     return 0;
   }
   catch (exception const& ex) {
-- 
2.43.0


From b458e7e188975011d9ab76f2c5daf42890f6f385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:13 +0000
Subject: [PATCH 105/117] fix: multtab: refuse rows that are not whole cosets
 of the part ends

---
 ringing/multtab.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ringing/multtab.cpp b/ringing/multtab.cpp
index f786637..42a4dd0 100644
--- a/ringing/multtab.cpp
+++ b/ringing/multtab.cpp
@@ -120,8 +120,10 @@ void multtab::init( const vector< row >& r )
         i != e; ++i ) 
     rows2.insert( make_representative(*i) );
 
-  // TODO:  Better error checking for this:
-  assert( rows2.size() == r.size() / pends.size() );
+  if ( rows2.size() * pends.size() != r.size() )
+    throw logic_error
+      ( "The rows of a multiplication table must be a union of complete, "
+        "distinct sets of rows related by the part ends" );
 
   // Force the capacity to be reduced.  
   // (Calling clear doesn't necessarily do this.)
-- 
2.43.0


From d9d940aba88ce131a4325b4f6fffe4240f2155ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:13 +0000
Subject: [PATCH 106/117] fix: spliceplan: methods false in themselves or in
 parts, invalid part ends, failed input and output

---
 apps/spliceplan/spliceplan.cpp | 105 +++++++++++++++++++++++++++------
 1 file changed, 86 insertions(+), 19 deletions(-)

diff --git a/apps/spliceplan/spliceplan.cpp b/apps/spliceplan/spliceplan.cpp
index ec9700c..4db8e5d 100644
--- a/apps/spliceplan/spliceplan.cpp
+++ b/apps/spliceplan/spliceplan.cpp
@@ -42,6 +42,8 @@
 #include <vector>
 
 #include <cassert>
+#include <cstdio>
+#include <stdexcept>
 
 #if RINGING_DEBUG_FILE
 #define DEBUG( expr ) (void)((cout << expr) << endl)
@@ -61,7 +63,7 @@ private:
   };
 
 public:
-  method_list( library const& lib, sqmulttab const& mt );
+  method_list( library const& lib, sqmulttab const& mt, bool in_course );
 
   int bells() const { return b; }
 
@@ -76,12 +78,36 @@ private:
   vector<methinfo> data;
 };
 
-method_list::method_list( library const& lib, sqmulttab const& mt )
+// A lead must have its head and end amongst those in the plan, 
+// and must not be false in itself.
+static bool is_usable( method const& m, bool in_course )
+{
+  if ( m.empty() )
+    return false;
+
+  row const lh( m.lh() ), le( lh * m.back() );
+  if ( lh[0] != 0 || le[0] != 0 )
+    return false;
+  if ( in_course && ( lh.sign() == -1 || le.sign() == -1 ) )
+    return false;
+
+  set<row> rows;  row r( m.bells() );
+  for ( method::const_iterator i=m.begin(), e=m.end(); i != e; r *= *i++ )
+    if ( !rows.insert(r).second )
+      return false;
+  return true;
+}
+
+method_list::method_list( library const& lib, sqmulttab const& mt, 
+                          bool in_course )
   : b( mt.bells() )
 {
   for ( library::const_iterator i(lib.begin()), e(lib.end()); i!=e; ++i ) {
     method m( i->meth() ); 
     m.name( i->get_facet<litelib::payload>() ); 
+    if ( !is_usable( m, in_course ) )
+      throw runtime_error( make_string() << "Unable to plan with method: " 
+                           << m.format( method::M_DASH|method::M_SYMMETRY ) );
     methinfo mi = { m, mt.find( m.lh() * m.back() ) };
     data.push_back( mi );
   }
@@ -252,7 +278,7 @@ private:
 
 arguments::arguments( int argc, char const *argv[] )
 {
-  arg_parser ap( argv[0], "musgrep -- grep rows for music", "OPTIONS" );
+  arg_parser ap( argv[0], "spliceplan -- find plans of mutually true leads", "OPTIONS" );
   bind( ap );
 
   if ( !ap.parse(argc, argv) )
@@ -341,8 +367,23 @@ bool arguments::generate_pends( arg_parser& ap )
   for ( vector<string>::const_iterator
           i( pend_strs.begin() ), e( pend_strs.end() ); i != e; ++i )
     {
-      row const g( row(bells) * row(*i) );
-      gens.push_back(g);
+      try {
+        row const g( row(bells) * row(*i) );
+        if ( g.bells() != bells || g[0] != 0 ) {
+          ap.error( make_string() << "Invalid part end: '" << *i << "'" );
+          return false;
+        }
+        if ( in_course && g.sign() == -1 ) {
+          ap.error( make_string() << "Out-of-course part end '" << *i 
+                    << "' in in-course plan" );
+          return false;
+        }
+        gens.push_back(g);
+      }
+      catch ( exception const& ex ) {
+        ap.error( make_string() << "Invalid part end: '" << *i << "'" );
+        return false;
+      }
     }
 
   if ( gens.size() )
@@ -407,7 +448,7 @@ private:
 searcher::searcher( arguments const& args )
   : args(args),
     node_count(0), mt(make_multtab()), 
-    meths(litelib(args.bells, cin), *mt), comp(*mt)
+    meths(litelib(args.bells, cin), *mt, args.in_course), comp(*mt)
 {
   init_pends();
   init_falseness();
@@ -455,6 +496,16 @@ bool searcher::is_possible( row_t const& lh,
   if ( le != lh && free_lhs.find(le) == free_lhs.end() )
     return false;
 
+  // Is the lead true against itself in the other parts?
+  falseness_tab const& fd = false_data.find( make_pair( m, m ) )->second;
+  for ( falseness_tab::const_iterator fi=fd.begin(), fe=fd.end(); 
+        fi != fe; ++fi )
+    if ( !fi->isrounds() && *fi != m->le )
+      for ( vector<row_t>::const_iterator
+              pi=pends.begin(), pe=pends.end(); pi != pe; ++pi )
+        if ( lh * *fi == *pi * lh )
+          return false;
+
   // Is the lead true agaisnt all the methods currently chosen?
   for ( spliced_plan::const_iterator ci = comp.begin(), ce = comp.end(); 
         ci != ce; ++ci ) 
@@ -618,6 +669,8 @@ void searcher::found( unsigned rotn_count )
     ofstream os( filename.c_str() );
     comp.write_plan(os);
     os.close();
+    if (!os) 
+      throw runtime_error( "Unable to write plan: " + filename );
   }
 
   map< method_ptr, unsigned > counts;
@@ -638,6 +691,8 @@ void searcher::found( unsigned rotn_count )
     if ( args.prune_rotations )
       cout << " [" << rotn_count << " rotations]";
     cout << endl;
+    if (!cout) 
+      throw runtime_error( "Error writing output" );
   }
 }
 
@@ -648,7 +703,7 @@ void searcher::set_method( row_t const& lh1, method_ptr const& m )
 
   for ( vector<row_t>::const_iterator
           pi=pends.begin(), pe=pends.end(); pi!=pe; ++pi ) {
-    if ( !pi->isrounds() && *pi * lh1 == le1 )
+    if ( *pi * lh1 == le1 )
       palindrome = true;
   }
 
@@ -677,7 +732,7 @@ void searcher::unset_method( row_t const& lh1, method_ptr const& m )
 
   for ( vector<row_t>::const_iterator
           pi=pends.begin(), pe=pends.end(); pi!=pe; ++pi ) {
-    if ( !pi->isrounds() && *pi * lh1 == le1 )
+    if ( *pi * lh1 == le1 )
       palindrome = true;
   }
 
@@ -773,7 +828,7 @@ private:
 
 analyser::analyser( arguments const& args )
   : args(args),
-    mt(make_multtab()), meths(litelib(args.bells, cin), *mt)
+    mt(make_multtab()), meths(litelib(args.bells, cin), *mt, args.in_course)
 {
 }
 
@@ -869,16 +924,28 @@ int main(int argc, char const* argv[] )
 {
   bell::set_symbols_from_env();
 
+  try {
+    arguments args( argc, argv );
 
-  arguments args( argc, argv );
+    const bool search = true;
 
-  const bool search = true;
-
-  if (search)
-    searcher(args).recurse();
-  else {
-    analyser a(args);
-    for ( int i=1; i<argc; ++i )
-      a.add_plan( argv[i] );
-  } 
+    if (search) {
+      searcher s(args);
+      if ( cin.bad() || ferror(stdin) )
+        throw runtime_error( "Unable to read methods" );
+      s.recurse();
+    }
+    else {
+      analyser a(args);
+      for ( int i=1; i<argc; ++i )
+        a.add_plan( argv[i] );
+    } 
+
+    if ( !cout.flush() )
+      throw runtime_error( "Error writing output" );
+  }
+  catch ( exception const& ex ) {
+    cerr << argv[0] << ": " << ex.what() << endl;
+    return 1;
+  }
 }
-- 
2.43.0


From 6174ec13d01d753cf5a72239fc8d5729a21ab5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:20 +0000
Subject: [PATCH 107/117] fix: falseness: do not look for a course head for
 ever in leads that have none

---
 ringing/falseness.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ringing/falseness.cpp b/ringing/falseness.cpp
index fa7b872..f03f8b9 100644
--- a/ringing/falseness.cpp
+++ b/ringing/falseness.cpp
@@ -177,9 +177,14 @@ public:
 	row c( lead * f );
 	lead *= fc.lh;
 	      
-	// Transpose to the course head
+	// Transpose to the course head, if there is one
+	row const c0( c );
 	while ( c[ f.bells() - 1 ] != f.bells() - 1 ) 
-	  c *= fc.lh;
+	  if ( ( c *= fc.lh ) == c0 )
+	    break;
+
+	if ( c[ f.bells() - 1 ] != f.bells() - 1 )
+	  continue;
 	      
 	if ( ( fc.flags & in_course_only ) && c.sign() == -1 )
 	  continue;
-- 
2.43.0


From 4f60834e170527aec13c41c389395d3d4e6ee189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:20 +0000
Subject: [PATCH 108/117] fix: fextent: -c with falseness was refused for
 practically every method

---
 apps/fextent/fextent.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/apps/fextent/fextent.cpp b/apps/fextent/fextent.cpp
index 1b4d4cf..807b7c3 100644
--- a/apps/fextent/fextent.cpp
+++ b/apps/fextent/fextent.cpp
@@ -711,9 +711,16 @@ void state::init_mt( method const& m, group const& pgrp,
 {
   status_out( "Generating multiplication table ..." );
 
+  // Transposing to the course head is only needed if the part ends affect
+  // the tenor 
   group postgroup;
   if ( flags & whole_courses )
-    postgroup = group( m.lh() );
+    for ( group::const_iterator i( pgrp.begin() ), e( pgrp.end() ); 
+	  i != e; ++i )
+      if ( (*i)[bells-1] != bells-1 ) {
+	postgroup = group( m.lh() );
+	break;
+      }
 
   if ( flags & in_course_only )
     mt.reset( new multtab( incourse_extent_iterator(nw, nh, bells),
-- 
2.43.0


From f007bb4b3df3023eee6928b2a15c3fec7159ccb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:20 +0000
Subject: [PATCH 109/117] fix: methsearch: a pair of bells dodging throughout
 the lead was counted among the points

---
 apps/methsearch/methodutils.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apps/methsearch/methodutils.cpp b/apps/methsearch/methodutils.cpp
index c082f73..6def17d 100644
--- a/apps/methsearch/methodutils.cpp
+++ b/apps/methsearch/methodutils.cpp
@@ -403,8 +403,10 @@ static vector<int> find_dodges( method const& m, bool inc_places )
                      m[j].findplace(i) && m[j].findplace(i+1) ) ) 
       ++j;
     // Is there dodging throughout the lead?
-    if (j==l)
+    if (j==l) {
       dodges.push_back(-1);
+      continue;
+    }
 
     for ( int k=j; k<j+l; ++k ) {
       int k0=k;
-- 
2.43.0


From 9af4189bafef990153ca0cb2a599bb4b38428fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:20 +0000
Subject: [PATCH 110/117] fix: methsearch: two symmetries imply the third
 before the arguments are validated; accept the documented --any-regular-lh

---
 apps/methsearch/prog_args.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/apps/methsearch/prog_args.cpp b/apps/methsearch/prog_args.cpp
index f36bebe..e0e3c55 100644
--- a/apps/methsearch/prog_args.cpp
+++ b/apps/methsearch/prog_args.cpp
@@ -241,10 +241,16 @@ void arguments::bind( arg_parser &p )
 	   require_pbles ) );
 
   p.add( new boolean_opt
-	 ( '\0', "any-regular-hl",
+	 ( '\0', "any-regular-lh",
 	   "Require any regular lead ends, including with extra hunt bells",
 	   any_regular_le ) );
 
+  // The name this used to have
+  p.add( new boolean_opt
+	 ( '\0', "any-regular-hl",
+	   "Synonym for --any-regular-lh",
+	   any_regular_le ) );
+
   p.add( new boolean_opt
 	 ( 'A', "all-methods",    
 	   "Include differentials or differential hunters",
@@ -660,6 +666,10 @@ bool arguments::validate( arg_parser &ap )
       return false;
     }
 
+  // Any two of these symmetries imply the third
+  if ( skewsym + sym + doubsym >= 2 )
+    skewsym = sym = doubsym = true;
+
   if ( surprise + treble_bob + delight + delight3 + delight4 + strict_delight +
        exercise + strict_exercise + pas_alla_tria + pas_alla_tessera >= 2 ) 
     {
@@ -845,9 +855,6 @@ bool arguments::validate( arg_parser &ap )
 	}
     }
 
-  if ( skewsym + sym + doubsym >= 2 )
-    skewsym = sym = doubsym = true;
-
   if ( ( formats_have_names() || formats_have_cc_ids() ) 
        && ! method_libraries::has_libraries() ) {
     ap.error( "A method library must be provided if $n, $N or $i is used" );
-- 
2.43.0


From 29b2d6dfe0aabbf95f58dc015552f341fe29240a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:20 +0000
Subject: [PATCH 111/117] fix: methsearch: --mirror with -f left out 2nds place
 at the half-lead

---
 apps/methsearch/mask.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/apps/methsearch/mask.cpp b/apps/methsearch/mask.cpp
index 403567b..bfa5ac8 100644
--- a/apps/methsearch/mask.cpp
+++ b/apps/methsearch/mask.cpp
@@ -527,8 +527,7 @@ void select_changes_below( const arguments& args, vector<change>& changesb,
       continue;
 
     // Handle -kf or -df
-    if ( (args.skewsym || args.doubsym || args.mirrorsym) 
-         && args.no_78_pns 
+    if ( (args.skewsym || args.doubsym) && args.no_78_pns 
          && active_below > 1 && b.findplace(1) )
       continue;
     
-- 
2.43.0


From 7199136f5515cdefcc16ec2a93a1e8739ef0a165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:20 +0000
Subject: [PATCH 112/117] fix: methsearch: -P with -Fl failed an assertion

---
 apps/methsearch/search.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index ed7af5a..e871926 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -164,7 +164,7 @@ void searcher::init() {
 
   prv.reset();
   if ( args.true_lead && ( !args.sym || !args.true_trivial ||
-         args.treble_dodges && !args.same_place_parity )  ||
+         args.treble_dodges )  ||
        args.true_half_lead && ( args.pends.size() > 1 ||
          args.hunt_bells == 0 || args.treble_dodges > 1 ) ) 
   {
-- 
2.43.0


From 3aba4676f4d201558487ddcf29fde99b278f6e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:20 +0000
Subject: [PATCH 113/117] fix: methsearch: check -p with --long-le-place in
 changes copied by symmetry

---
 apps/methsearch/search.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index e871926..ed7f536 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -463,6 +463,17 @@ bool searcher::are_copied_changes_acceptable()
     return false;
 
   const size_t n = m.size();
+
+  if ( args.max_consec_blows && args.long_le_place )
+    for ( int p=0; p<bells; ++p ) {
+      int count(1);
+      for ( size_t i=0; i+1<n; ++i ) {
+        count = m[ (sym_offset + i) % n ].findplace(p) ? count+1 : 1;
+        if ( count > args.max_consec_blows )
+          return false;
+      }
+    }
+
   for ( size_t i=0; i<n; ++i ) {
     if ( args.true_trivial && i && m[i] == m[i-1] )
       return false;
-- 
2.43.0


From 5f6964f6141ad1c22a6381c0e5a217541c1a1dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:20 +0000
Subject: [PATCH 114/117] fix: methsearch: -y and -G2 required the wrong change
 at the lead end

---
 apps/methsearch/search.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index ed7f536..ef54a1d 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -768,6 +768,10 @@ inline int searcher::get_posn() const
 
   const size_t depth = m.length();
 
+  // At the lead end
+  if ( depth == lead_len - 1 )
+    return args.treble_front - 2;
+
   // Reflect about the half-lead:
   size_t posn = depth >= lead_len/2 ? lead_len - depth - 2 : depth;
   
-- 
2.43.0


From 83d8939db187fedf57d68c7532c330ac81868527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:20 +0000
Subject: [PATCH 115/117] fix: methsearch: 3rds and 4ths place delight with
 double or rotational symmetry listed treble bob methods

---
 apps/methsearch/search.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index ef54a1d..8001e04 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -1012,6 +1012,11 @@ bool searcher::try_midlead_change( const change &ch )
       if ( args.treble_bob && ch.internal() )
         return false;
 
+      // With double or rotational symmetry the two are reflections
+      if ( ( args.delight3 || args.delight4 ) 
+           && ( args.skewsym || args.doubsym ) )
+        return false;
+
       if ( args.delight3 && ( posn == 3 && !ch.internal() ||
                               posn == 1 &&  ch.internal() ) )
         return false;
-- 
2.43.0


From a9dd5a3e1b922b906081953fc6c130dc355cc5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:20 +0000
Subject: [PATCH 116/117] fix: methsearch: -y without hunt bells failed an
 assertion

---
 apps/methsearch/search.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/methsearch/search.cpp b/apps/methsearch/search.cpp
index 8001e04..dc1a86b 100644
--- a/apps/methsearch/search.cpp
+++ b/apps/methsearch/search.cpp
@@ -1100,7 +1100,7 @@ bool searcher::try_midlead_change( const change &ch )
     }
   
   // Are we more than half way through the current division? 
-  if ( args.sym_sects && !intersection && depth - div_start >= cur_div_len/2 )
+  if ( args.sym_sects && args.hunt_bells && !intersection && depth - div_start >= cur_div_len/2 )
     {
       int i = div_start + cur_div_len - 2 - (depth - div_start);
       assert( i < (int)m.size() && i >= 0 );
-- 
2.43.0


From 57b0f3c9cace965eaf2efaaf24f26b4b9403d0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:20 +0000
Subject: [PATCH 117/117] fix: group: coset labels of rows on a different
 number of bells were not rows or were written out of bounds

---
 ringing/group.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ringing/group.cpp b/ringing/group.cpp
index 4bf2630..63102fe 100644
--- a/ringing/group.cpp
+++ b/ringing/group.cpp
@@ -269,15 +269,18 @@ bool operator>( const group& a, const group& b )
   return a.b > b.b || a.b == b.b && a.v > b.v;
 }
 
-row group::rcoset_label( row const& r ) const
+row group::rcoset_label( row const& r0 ) const
 {
-  if ( size() == 1 ) return r;
+  if ( size() == 1 ) return r0;
+
+  // The row may not be on the same number of bells as the group
+  row const r( row( bells() ) * r0 );
 
   // |G|=6 is the point at which the O(1) algorithm beats the O(|G|) one.
   if ( size() >= 6 && is_direct_product_of_symmetric_groups( o, size() ) ) 
   {
     // Use an O(1) algorithm.
-    vector<bell> label( r.bells() );
+    vector<bell> label( r.begin(), r.end() );
 
     for ( vector< vector<bell> >::const_iterator i=o.begin(), e=o.end(); 
             i != e; ++i ) {
-- 
2.43.0

