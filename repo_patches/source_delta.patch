From 4d60dff1b4bc93b97e41d709cc1825915dd33b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:56 +0000
Subject: [PATCH 01/14] fix: report a bad lexicon or grammar instead of
 crashing the backend

CreateStd passed a NULL error slot to getLexiconPtr/getGrammarPtr, which
store the message through it, and freed the lexicon twice when the grammar
was rejected.
---
 src/std_pg_hash.c | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/std_pg_hash.c b/src/std_pg_hash.c
index 9f96aa9..a3452d6 100644
--- a/src/std_pg_hash.c
+++ b/src/std_pg_hash.c
@@ -587,7 +587,7 @@ CreateStd(char *lexicon, char *grammar)
     STANDARDIZER     *std;
     void             *lex;
     void             *gmr;
-    char            **err_msg = NULL;
+    char             *err_msg = NULL;
     char             *pmsg;
 
     DBG("Enter: CreateStd");
@@ -599,26 +599,25 @@ CreateStd(char *lexicon, char *grammar)
 
 
     DBG("Calling getLexiconPtr( lexicon, err_msg )");
-    lex = getLexiconPtr( lexicon, err_msg );
+    lex = getLexiconPtr( lexicon, &err_msg );
     DBG("Back from (%p) getLexiconPtr( lexicon, err_msg )", lex);
     if (!lex) {
         std_free(std);
         SPI_finish();
-        pmsg = pstrdup(*err_msg);
-        free(*err_msg);
+        pmsg = pstrdup(err_msg);
+        free(err_msg);
         elog(ERROR, "CreateStd: failed to load Lexicon (%s)", pmsg);
     }
     std->lex_obj = lex;
 
     DBG("Calling getGrammarPtr( grammar, err_msg )");
-    gmr = getGrammarPtr( grammar, err_msg );
+    gmr = getGrammarPtr( grammar, &err_msg );
     DBG("Back from (%p) getGrammarPtr( grammar, err_msg )", gmr);
     if (!gmr) {
-        freeLexiconPtr( lex );
-        std_free(std);
+        std_free(std);      /* this also frees the lexicon */
         SPI_finish();
-        pmsg = pstrdup(*err_msg);
-        free(*err_msg);
+        pmsg = pstrdup(err_msg);
+        free(err_msg);
         elog(ERROR, "CreateStd: failed to load Gammar (%s)", pmsg);
     }
     std->gmr_obj = gmr;
-- 
2.43.0


From c4f352e532536bbe12b1936a565ca41674f14401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:56 +0000
Subject: [PATCH 02/14] fix: MD5 auxiliary functions F and G

---
 src/md5.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/md5.cpp b/src/md5.cpp
index 65153e0..6587fa1 100644
--- a/src/md5.cpp
+++ b/src/md5.cpp
@@ -60,11 +60,11 @@ documentation and/or software.
 
 // F, G, H and I are basic MD5 functions.
 inline MD5::uint4 MD5::F( uint4 x, uint4 y, uint4 z ) {
-    return ( ( x & y ) | ~x ) & z;
+    return ( x & y ) | ( ~x & z );
 }
 
 inline MD5::uint4 MD5::G( uint4 x, uint4 y, uint4 z ) {
-    return ( ( x & z ) | y ) & ~z;
+    return ( x & z ) | ( y & ~z );
 }
 
 inline MD5::uint4 MD5::H( uint4 x, uint4 y, uint4 z ) {
-- 
2.43.0


From 7c71d2639b3d4c37e184e746da27f25420b34456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:56 +0000
Subject: [PATCH 03/14] fix: the UTF-8 byte order mark is three bytes long

---
 src/grammar.cpp | 2 +-
 src/lexicon.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/grammar.cpp b/src/grammar.cpp
index 7b84814..a84b4dd 100644
--- a/src/grammar.cpp
+++ b/src/grammar.cpp
@@ -69,7 +69,7 @@ void Grammar::initialize( std::istream &is )
 
         // remove UTF8 BOM if one exists
         if ( line_cnt == 1 and line[0] == '\xEF' and line[1] == '\xBB' and line[2] == '\xBF' )
-            line = line.substr(4);
+            line = line.substr(3);
 
         // skip over comments and blank lines
         if ( boost::u32regex_match( line, re_comment ) ) 
diff --git a/src/lexicon.cpp b/src/lexicon.cpp
index 098a8d2..304d2d2 100644
--- a/src/lexicon.cpp
+++ b/src/lexicon.cpp
@@ -74,7 +74,7 @@ void Lexicon::initialize( std::istream &is ) {
 
     // remove UTF8 BOM if one exists
     if (line[0] == '\xEF' && line[1] == '\xBB' && line[2] == '\xBF')
-        line = line.substr(4);
+        line = line.substr(3);
     ++cnt;
 
     // read the header and skip any
-- 
2.43.0


From cc66dc91a335e2286f4f5477d843d43d59f5a6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:15 +0000
Subject: [PATCH 04/14] fix: Trie::quoteChar did pointer arithmetic instead of
 concatenation

---
 src/trie.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/trie.cpp b/src/trie.cpp
index 827ae74..3150e5b 100644
--- a/src/trie.cpp
+++ b/src/trie.cpp
@@ -111,7 +111,7 @@ std::string Trie::quoteChar( const char c ) const {
     if ( found == std::string::npos )
         return std::string( 1, c );
     else
-        return "\\" + c;
+        return std::string( "\\" ) + c;
 }
 
 
-- 
2.43.0


From 95461c12b97d31371a56ea00f771f6b0608a229f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:15 +0000
Subject: [PATCH 05/14] fix: quote ^ { and } when a lexicon word is put into a
 regular expression

A lexicon word with one of them was matched as an anchor or repeat, or made
the whole lexicon unusable.
---
 src/trie.cpp     | 2 +-
 src/trieutf8.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trie.cpp b/src/trie.cpp
index 3150e5b..dd45793 100644
--- a/src/trie.cpp
+++ b/src/trie.cpp
@@ -106,7 +106,7 @@ void Trie::getWordsStartingWith( std::string prefix, WordSet &words, std::string
 
 
 std::string Trie::quoteChar( const char c ) const {
-    static std::string special( "-.+*~$()[]\\|?" );
+    static std::string special( "-.+*~$^{}()[]\\|?" );
     auto found = special.find_first_of( c );
     if ( found == std::string::npos )
         return std::string( 1, c );
diff --git a/src/trieutf8.cpp b/src/trieutf8.cpp
index aee5370..cb33701 100644
--- a/src/trieutf8.cpp
+++ b/src/trieutf8.cpp
@@ -121,7 +121,7 @@ void TrieUtf8::getWordsStartingWith( const std::string &prefix, WordSet &words,
 
 
 std::string TrieUtf8::quoteMeta( const std::string &str ) const {
-    static std::string special( "-.+*~$()[]\\|?" );
+    static std::string special( "-.+*~$^{}()[]\\|?" );
 
     std::string tmp;
     size_t last = 0;
-- 
2.43.0


From 760ad55b76e3ae5b22dd8d719edbb5956e710e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:41 +0000
Subject: [PATCH 06/14] fix: apply the token filter to the alternate phrases
 too

Splitting a lexicon phrase into words could bring back filtered tokens such
as DASH.
---
 src/tokenizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenizer.cpp b/src/tokenizer.cpp
index 2806648..076d606 100644
--- a/src/tokenizer.cpp
+++ b/src/tokenizer.cpp
@@ -316,7 +316,7 @@ std::vector<std::vector<Token> > Tokenizer::getAltTokens( const std::vector<Toke
                 ++n;
             }
         }
-        list.push_back( one );
+        list.push_back( applyFilter( one ) );
     }
 
     return list;
-- 
2.43.0


From e363f437308a6483182efaae3348a7b1a9538305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:41 +0000
Subject: [PATCH 07/14] fix: reject a malformed meta rule instead of dropping
 it

A line with a '@' that is not a list of references vanished silently from
the grammar.
---
 src/grammar.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/grammar.cpp b/src/grammar.cpp
index a84b4dd..a8f463a 100644
--- a/src/grammar.cpp
+++ b/src/grammar.cpp
@@ -119,10 +119,11 @@ void Grammar::initialize( std::istream &is )
                 ruleType = ISMETA;
 
                 // make sure all tokens are meta
-                if (boost::u32regex_match( line, re_ismeta ) ) {
-                    MetaRule rule( line );
-                    mrules.push_back( rule );
-                }
+                if ( not boost::u32regex_match( line, re_ismeta ) )
+                    throw std::runtime_error("Grammar-Syntax-Error");
+
+                MetaRule rule( line );
+                mrules.push_back( rule );
             }
             // otherwise it is a standard rule line
             else {
-- 
2.43.0


From 2e245d21fcb7bb20bf9827cef9097308abd830a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:41 +0000
Subject: [PATCH 08/14] fix: getLexiconPtr leaked the lexicon when it was
 rejected

---
 src/as_wrapper.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/as_wrapper.cpp b/src/as_wrapper.cpp
index 622798b..cfede41 100644
--- a/src/as_wrapper.cpp
+++ b/src/as_wrapper.cpp
@@ -17,6 +17,7 @@
 #include <iostream>
 #include <string>
 #include <vector>
+#include <memory>
 #include <cstdlib>
 #include <algorithm>
 
@@ -562,7 +563,7 @@ void *getLexiconPtr( char *lexicon_in, char **err_msg )
     try {
         std::string s( lexicon_in );
         std::istringstream iss( s );
-        Lexicon* lexicon = new Lexicon;
+        std::unique_ptr<Lexicon> lexicon( new Lexicon );
         try {
             boost::archive::text_iarchive ia(iss);
             ia >> *lexicon;
@@ -581,7 +582,7 @@ void *getLexiconPtr( char *lexicon_in, char **err_msg )
             lexicon->name( "query-lex" );
             lexicon->initialize( iss );
         }
-        return static_cast<void*>(lexicon);
+        return static_cast<void*>(lexicon.release());
     }
     catch ( std::runtime_error &e ) {
         *err_msg = strdup( e.what() );
-- 
2.43.0


From 63fbbaa402fcbac7c74e722defb6529452c0a3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:09 +0000
Subject: [PATCH 09/14] fix: follow each partial match once in the grammar
 search

matchNext continued the whole collection once for every member, so a
section with k matching rules reported every derivation k times over
(as_match rows were repeated, the work grew exponentially).
---
 src/search.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/search.cpp b/src/search.cpp
index 74f588a..06cb2d3 100644
--- a/src/search.cpp
+++ b/src/search.cpp
@@ -392,7 +392,7 @@ SearchPaths Search::matchNext( const SearchPath &path, const unsigned long int l
 
     for ( const auto &result : mr ) {
         if ( result.next.size() > 0 ) {
-            SearchPaths nextResults = matchNext( mr, level );
+            SearchPaths nextResults = matchNext( result, level );
             for ( const auto &result : nextResults )
                 results.push_back( result );
         }
-- 
2.43.0


From b4d247946ea693d6a079133429e940534f81979f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 10/14] fix: free the engine's error message and an empty token
 list

---
 src/address_standardizer.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/address_standardizer.c b/src/address_standardizer.c
index 32b0ba7..df9865c 100644
--- a/src/address_standardizer.c
+++ b/src/address_standardizer.c
@@ -88,7 +88,7 @@ void tokens_free(TOKENS *tokens, int nrec)
 {
     int i;
 
-    if ( nrec < 1 || ! tokens ) return;
+    if ( ! tokens ) return;
     for ( i=0; i<nrec; ++i ) {
         if ( tokens[i].word ) free( tokens[i].word );
         if ( tokens[i].inclass ) free( tokens[i].inclass );
@@ -121,8 +121,11 @@ Datum as_compile_lexicon(PG_FUNCTION_ARGS)
     DBG("lexicon:\n '%s'", lexicon);
 
     cstr = serialize_lexicon( lexicon, &err_msg );
-    if ( err_msg != NULL )
-        elog(ERROR, "std_standardize threw an error: %s", err_msg);
+    if ( err_msg != NULL ) {
+        pstr = pstrdup(err_msg);
+        free(err_msg);
+        elog(ERROR, "std_standardize threw an error: %s", pstr);
+    }
 
     if (cstr) {
         pstr = pstrdup(cstr);
@@ -236,8 +239,10 @@ Datum as_standardize(PG_FUNCTION_ARGS)
 #endif
     DBG("back from std_standardize");
 
-    if ( err_msg != NULL )
+    if ( err_msg != NULL ) {
         DBG("std_standardize threw an error: %s", err_msg);
+        free(err_msg);
+    }
 
     values = (char **) palloc(17 * sizeof(char *));
     for (k=0; k<17; k++) {
@@ -354,8 +359,10 @@ Datum as_parse(PG_FUNCTION_ARGS)
 #endif
         DBG("back from std_parse_address, nrec=%d", nrec);
 
-        if ( err_msg != NULL )
+        if ( err_msg != NULL ) {
             DBG("std_parse_address threw an error: %s", err_msg);
+            free(err_msg);
+        }
 
         DBG("calling get_call_result_type");
         if (get_call_result_type( fcinfo, NULL, &tuple_desc ) != TYPEFUNC_COMPOSITE ) {
@@ -494,8 +501,10 @@ Datum as_match(PG_FUNCTION_ARGS)
         tokens = std_match_address(address, grammar, lexicon, locale, filter, &nrec, &err_msg);
         DBG("back from std_match_address");
 
-        if ( err_msg != NULL )
+        if ( err_msg != NULL ) {
             DBG("std_match_address threw an error: %s", err_msg);
+            free(err_msg);
+        }
 
         DBG("calling get_call_result_type");
         if (get_call_result_type( fcinfo, NULL, &tuple_desc ) != TYPEFUNC_COMPOSITE ) {
-- 
2.43.0


From 853b5bdb19cb498e89dbdef52dfa7236f36b95cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:47 +0000
Subject: [PATCH 11/14] fix: a lexicon whose last line has no newline is read
 without repeating that line

---
 src/lexicon.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lexicon.cpp b/src/lexicon.cpp
index 304d2d2..0977399 100644
--- a/src/lexicon.cpp
+++ b/src/lexicon.cpp
@@ -111,8 +111,7 @@ void Lexicon::initialize( std::istream &is ) {
     UErrorCode errorCode;
 
     // read in the lexicon entries
-    while ( is ) {
-        std::getline( is, line );
+    while ( std::getline( is, line ) ) {
         lexicon_in += line;
         ++cnt;
         //std::cout << "\t" << line << "\n";
-- 
2.43.0


From 4d60963f7cf66dadc1a6bd04b5db2616d4c1a7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:47 +0000
Subject: [PATCH 12/14] fix: the last rule of a grammar without a final newline
 is loaded once

---
 src/grammar.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/grammar.cpp b/src/grammar.cpp
index a8f463a..fbc84b5 100644
--- a/src/grammar.cpp
+++ b/src/grammar.cpp
@@ -61,9 +61,8 @@ void Grammar::initialize( std::istream &is )
 
     boost::smatch what;
     int line_cnt = 0;
-    while ( is ) {
+    while ( std::getline( is, line ) ) {
         ++line_cnt;
-        std::getline( is, line );
         grammar_in += line;
         //std::cout << "\t" << line_cnt << ": " << line << "\n";
 
-- 
2.43.0


From 40aa0bc2935b2740b1bdfc36c123be3d216b9198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:39 +0000
Subject: [PATCH 13/14] fix: count letters, not bytes, when classifying one and
 two letter words

---
 src/lexicon.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lexicon.cpp b/src/lexicon.cpp
index 0977399..85c66e3 100644
--- a/src/lexicon.cpp
+++ b/src/lexicon.cpp
@@ -223,6 +223,8 @@ void Lexicon::classify( Token& token, InClass::Type typ ) {
     auto float_exp  = boost::make_u32regex("^\\d+[,\\.]\\d+$");
     auto word_exp   = boost::make_u32regex("^\\w+$");
     auto has_digit  = boost::make_u32regex("^.*\\d.*$");
+    auto single_exp = boost::make_u32regex("^\\w$");
+    auto double_exp = boost::make_u32regex("^\\w{2}$");
     auto dash_exp   = boost::make_u32regex("^[-]+$");
     auto emdash_exp = boost::make_u32regex("^\xe2\x80\x94$");
     auto punct_exp  = boost::make_u32regex("^[\\|[:punct:]]+$");
@@ -273,9 +275,10 @@ void Lexicon::classify( Token& token, InClass::Type typ ) {
         if (boost::u32regex_match( text, has_digit ))
             token.inclass( InClass::MIXED );
         else {
-            if (text.length() == 2)
+            // count letters, not bytes
+            if (boost::u32regex_match( text, double_exp ))
                 token.inclass( InClass::DOUBLE );
-            else if (text.length() == 1)
+            else if (boost::u32regex_match( text, single_exp ))
                 token.inclass( InClass::SINGLE );
 
             token.inclass( InClass::WORD );
-- 
2.43.0


From 73de8f032db89d38552564ad1258c12e18dd200f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:29 +0000
Subject: [PATCH 14/14] fix: restore the in-lexicon mark of a token read back
 from its text

---
 src/token.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/token.cpp b/src/token.cpp
index b418e99..9a8fc76 100644
--- a/src/token.cpp
+++ b/src/token.cpp
@@ -31,6 +31,7 @@ Token::Token(std::string text) {
     std::string in_inclass;
     std::string in_outclass;
     std::string in_attached;
+    std::string in_inlex;
 
     std::stringstream buffer(text);
     std::getline(buffer, in_word, '\t');
@@ -40,13 +41,14 @@ Token::Token(std::string text) {
     std::getline(buffer, in_inclass, '\t');
     std::getline(buffer, in_outclass, '\t');
     std::getline(buffer, in_attached, '\t');
+    std::getline(buffer, in_inlex, '\t');
 
     text_ = in_word;
     stdtext_ = in_stdword;
     inclass_ = InClass::asType(in_inclass);
     outclass_ = OutClass::asType(in_outclass);
     attached_ = InClass::asAttachType(in_attached);
-    inlex_ = false;
+    inlex_ = (in_inlex == "1");
 
 }
 
-- 
2.43.0

