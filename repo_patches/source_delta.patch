From 5649f0495c617d4739ed4c4bd3aa5c6a5b7d231f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:59 +0000
Subject: [PATCH 01/17] fix: stop reparsing the last line of a .po file without
 trailing newline forever

---
 src/po_parser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/po_parser.cpp b/src/po_parser.cpp
index ff56796..a3ab2e0 100644
--- a/src/po_parser.cpp
+++ b/src/po_parser.cpp
@@ -89,7 +89,10 @@ POParser::next_line()
 {
   line_number += 1;
   if (!std::getline(in, current_line))
+  {
     eof = true;
+    current_line.clear(); // getline() leaves the last line in place on a stream that hit EOF
+  }
 }
 
 void
-- 
2.43.0


From 17e19ff4a9f2c8193fb4f900bf0f0d3f66274667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:59 +0000
Subject: [PATCH 02/17] fix: do not skip the entry after a malformed one when
 the error is found at the separating blank line

---
 src/po_parser.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/po_parser.cpp b/src/po_parser.cpp
index a3ab2e0..08abd15 100644
--- a/src/po_parser.cpp
+++ b/src/po_parser.cpp
@@ -77,9 +77,8 @@ POParser::error(const std::string& msg)
   log_error << filename << ":" << line_number << ": error: " << msg  << ": " << current_line << std::endl;
 
   // Try to recover from an error by searching for start of another entry
-  do
+  while(!eof && !is_empty_line())
     next_line();
-  while(!eof && !is_empty_line());
 
   throw POParserError();
 }
-- 
2.43.0


From def73969e73af8ecc527b0ba9426c29556378388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:59 +0000
Subject: [PATCH 03/17] fix: make DictionaryManager::set_use_fuzzy() effective

---
 include/tinygettext/po_parser.hpp | 5 +++--
 src/dictionary_manager.cpp        | 2 +-
 src/po_parser.cpp                 | 4 ++--
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/tinygettext/po_parser.hpp b/include/tinygettext/po_parser.hpp
index 99c03aa..fcc4b9e 100644
--- a/include/tinygettext/po_parser.hpp
+++ b/include/tinygettext/po_parser.hpp
@@ -65,8 +65,9 @@ private:
 public:
   /** @param filename name of the istream, only used in error messages
       @param in stream from which the PO file is read.
-      @param dict dictionary to which the strings are written */
-  static void parse(const std::string& filename, std::istream& in, Dictionary& dict);
+      @param dict dictionary to which the strings are written
+      @param use_fuzzy whether entries marked as fuzzy are used */
+  static void parse(const std::string& filename, std::istream& in, Dictionary& dict, bool use_fuzzy = true);
   static bool pedantic;
 
 private:
diff --git a/src/dictionary_manager.cpp b/src/dictionary_manager.cpp
index 6175d76..6b028b5 100644
--- a/src/dictionary_manager.cpp
+++ b/src/dictionary_manager.cpp
@@ -162,7 +162,7 @@ DictionaryManager::get_dictionary(const Language& language)
           }
           else
           {
-            POParser::parse(pofile, *in, *dict);
+            POParser::parse(pofile, *in, *dict, use_fuzzy);
           }
         }
         catch(std::exception& e)
diff --git a/src/po_parser.cpp b/src/po_parser.cpp
index 08abd15..bd7d837 100644
--- a/src/po_parser.cpp
+++ b/src/po_parser.cpp
@@ -38,9 +38,9 @@ namespace tinygettext {
 bool POParser::pedantic = true;
 
 void
-POParser::parse(const std::string& filename, std::istream& in, Dictionary& dict)
+POParser::parse(const std::string& filename, std::istream& in, Dictionary& dict, bool use_fuzzy)
 {
-  POParser parser(filename, in, dict);
+  POParser parser(filename, in, dict, use_fuzzy);
   parser.parse();
 }
 
-- 
2.43.0


From 53d0baf9cc4acc29aed02c0bce09f029dd6f79cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:59 +0000
Subject: [PATCH 04/17] fix: Latvian plural rule has three forms, as its header
 says

---
 src/plural_forms.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plural_forms.cpp b/src/plural_forms.cpp
index ec3b6a6..05fe68f 100644
--- a/src/plural_forms.cpp
+++ b/src/plural_forms.cpp
@@ -76,7 +76,7 @@ PluralForms::from_string(const std::string& str)
     plural_forms["Plural-Forms:nplurals=2;plural=(n>1);"] = PluralForms(2, plural2_2);
     plural_forms["Plural-Forms:nplurals=2;plural=n==1||n%10==1?0:1;"] = PluralForms(2, plural2_mk);
     plural_forms["Plural-Forms:nplurals=2;plural=(n%10==1&&n%100!=11)?0:1;"] = PluralForms(2, plural2_mk_2);
-    plural_forms["Plural-Forms:nplurals=3;plural=n%10==1&&n%100!=11?0:n!=0?1:2);"] = PluralForms(2, plural3_lv);
+    plural_forms["Plural-Forms:nplurals=3;plural=n%10==1&&n%100!=11?0:n!=0?1:2);"] = PluralForms(3, plural3_lv);
     plural_forms["Plural-Forms:nplurals=3;plural=n==1?0:n==2?1:2;"] = PluralForms(3, plural3_ga);
     plural_forms["Plural-Forms:nplurals=3;plural=(n%10==1&&n%100!=11?0:n%10>=2&&(n%100<10||n%100>=20)?1:2);"] = PluralForms(3, plural3_lt);
     plural_forms["Plural-Forms:nplurals=3;plural=(n%10==1&&n%100!=11?0:n%10>=2&&n%10<=4&&(n%100<10||n%100>=20)?1:2);"] = PluralForms(3, plural3_1);
-- 
2.43.0


From 7c9c18e9bb2ee880930013884e5888e3d313279c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:59 +0000
Subject: [PATCH 05/17] fix: convertFilename2Language() threw on names shorter
 than three characters

---
 src/dictionary_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dictionary_manager.cpp b/src/dictionary_manager.cpp
index 6b028b5..a586f6a 100644
--- a/src/dictionary_manager.cpp
+++ b/src/dictionary_manager.cpp
@@ -271,7 +271,7 @@ DictionaryManager::remove_directory(const std::string& pathname)
 std::string DictionaryManager::convertFilename2Language(const std::string &s_in) const
 {
     std::string s;
-    if(s_in.substr(s_in.size()-3, 3)==".po")
+    if(has_suffix(s_in, ".po"))
         s = s_in.substr(0, s_in.size()-3);
     else
         s = s_in;
-- 
2.43.0


From cf8f9c540b8dae9dd9517ae5ac6b128134da9f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:59 +0000
Subject: [PATCH 06/17] fix: get_languages() listed undefined languages and
 missed lower case country codes

---
 src/dictionary_manager.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dictionary_manager.cpp b/src/dictionary_manager.cpp
index a586f6a..b2ccd2e 100644
--- a/src/dictionary_manager.cpp
+++ b/src/dictionary_manager.cpp
@@ -195,7 +195,9 @@ DictionaryManager::get_languages()
     {
       if (has_suffix(*file, ".po"))
       {
-        languages.insert(Language::from_env(file->substr(0, file->size()-3)));
+        Language language = Language::from_env(convertFilename2Language(*file));
+        if (language)
+          languages.insert(language);
       }
     }
   }
-- 
2.43.0


From 97480951aee385c0dfc85b6f788dcfa318269a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:59 +0000
Subject: [PATCH 07/17] fix: do not take an underscore inside of the codeset or
 modifier as start of the country

---
 src/language.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/language.cpp b/src/language.cpp
index e672915..9ffe368 100644
--- a/src/language.cpp
+++ b/src/language.cpp
@@ -440,7 +440,7 @@ Language::from_env(const std::string& env)
 
   language = env.substr(0, std::min(std::min(ln, dt), at));
 
-  if (ln != std::string::npos && ln+1 < env.size()) // _
+  if (ln < std::min(dt, at) && ln+1 < env.size()) // _ (not one inside of CODESET or MODIFIER)
   {
     country = env.substr(ln+1, (std::min(dt, at) == std::string::npos) ? std::string::npos : std::min(dt, at) - (ln+1));
   }
-- 
2.43.0


From 700b095923d2a82153e52a08aeb4adb0cb4f2b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:59 +0000
Subject: [PATCH 08/17] fix: do not keep using or closing an invalid conversion
 descriptor after iconv_open() failed

---
 src/iconv.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/iconv.cpp b/src/iconv.cpp
index ba110d7..493b599 100644
--- a/src/iconv.cpp
+++ b/src/iconv.cpp
@@ -54,7 +54,10 @@ void
 IConv::set_charsets(const std::string& from_charset_, const std::string& to_charset_)
 {
   if (cd)
+  {
     tinygettext::iconv_close(cd);
+    cd = nullptr;
+  }
 
   from_charset = from_charset_;
   to_charset   = to_charset_;
@@ -74,6 +77,7 @@ IConv::set_charsets(const std::string& from_charset_, const std::string& to_char
     cd = tinygettext::iconv_open(to_charset.c_str(), from_charset.c_str());
     if (cd == reinterpret_cast<iconv_t>(-1))
     {
+      cd = nullptr; // there is nothing to convert with and nothing to close
       if(errno == EINVAL)
       {
         std::ostringstream str;
-- 
2.43.0


From 63afc6f5a043cd77b72e325b583023a4fa5c1f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:59 +0000
Subject: [PATCH 09/17] fix: enlarge the output buffer instead of aborting when
 a conversion needs more than four bytes per byte

---
 src/iconv.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/iconv.cpp b/src/iconv.cpp
index 493b599..65d66df 100644
--- a/src/iconv.cpp
+++ b/src/iconv.cpp
@@ -115,20 +115,23 @@ IConv::convert(const std::string& text)
     char* outbuf = &result[0];
 
     // Try to convert the text.
-    size_t ret = tinygettext::iconv(cd, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
-    if (ret == static_cast<size_t>(-1))
+    while (tinygettext::iconv(cd, &inbuf, &inbytesleft, &outbuf, &outbytesleft) == static_cast<size_t>(-1))
     {
-      if (errno == EILSEQ || errno == EINVAL)
+      if (errno == E2BIG)
+      { // output buffer to small, enlarge it and continue
+        const size_t converted = result.size() - outbytesleft;
+        result.resize(2*result.size() + 16, 'X');
+        outbuf = &result[converted];
+        outbytesleft = result.size() - converted;
+        continue;
+      }
+      else if (errno == EILSEQ || errno == EINVAL)
       { // invalid multibyte sequence
         tinygettext::iconv(cd, nullptr, nullptr, nullptr, nullptr); // reset state
 
         // FIXME: Could try to skip the invalid byte and continue
         log_error << "error: tinygettext:iconv: invalid multibyte sequence in:  \"" << text << "\"" << std::endl;
       }
-      else if (errno == E2BIG)
-      { // output buffer to small
-        assert(false && "tinygettext/iconv.cpp: E2BIG: This should never be reached");
-      }
       else if (errno == EBADF)
       {
         assert(false && "tinygettext/iconv.cpp: EBADF: This should never be reached");
@@ -137,9 +140,10 @@ IConv::convert(const std::string& text)
       {
         assert(false && "tinygettext/iconv.cpp: <unknown>: This should never be reached");
       }
+      break;
     }
 
-    result.resize(4*text.size() - outbytesleft);
+    result.resize(result.size() - outbytesleft);
 
     return result;
   }
-- 
2.43.0


From 2269504c5d4c7f4a317bd82cc550bfdde69a6f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:59 +0000
Subject: [PATCH 10/17] fix: an empty translation counts as untranslated in
 translate()

---
 src/dictionary.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dictionary.cpp b/src/dictionary.cpp
index b61d215..92cdd8c 100644
--- a/src/dictionary.cpp
+++ b/src/dictionary.cpp
@@ -124,7 +124,7 @@ std::string
 Dictionary::translate(const Entries& dict, const std::string& msgid) const
 {
   Entries::const_iterator i = dict.find(msgid);
-  if (i != dict.end() && !i->second.empty())
+  if (i != dict.end() && !i->second.empty() && !i->second[0].empty())
   {
     return i->second[0];
   }
-- 
2.43.0


From 587a0bd1312b9741462c8406d813c0516c374f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 11/17] fix: fall back with the same context and for plurals,
 and by the English rule for missing plural forms

---
 include/tinygettext/dictionary.hpp |  7 ++--
 src/dictionary.cpp                 | 56 ++++++++++++++++++------------
 2 files changed, 39 insertions(+), 24 deletions(-)

diff --git a/include/tinygettext/dictionary.hpp b/include/tinygettext/dictionary.hpp
index 958f4a3..3a69801 100644
--- a/include/tinygettext/dictionary.hpp
+++ b/include/tinygettext/dictionary.hpp
@@ -43,8 +43,11 @@ private:
   std::string charset;
   PluralForms plural_forms;
 
-  std::string translate(const Entries& dict, const std::string& msgid) const;
-  std::string translate_plural(const Entries& dict, const std::string& msgid, const std::string& msgidplural, int num) const;
+  /* msgctxt is the context that dict belongs to, nullptr for messages without context */
+  std::string translate(const Entries& dict, const std::string* msgctxt, const std::string& msgid) const;
+  std::string translate_plural(const Entries& dict, const std::string* msgctxt, const std::string& msgid, const std::string& msgidplural, int num) const;
+  std::string untranslated(const std::string* msgctxt, const std::string& msgid) const;
+  std::string untranslated_plural(const std::string* msgctxt, const std::string& msgid, const std::string& msgidplural, int num) const;
 
   bool m_has_fallback;
   Dictionary* m_fallback;
diff --git a/src/dictionary.cpp b/src/dictionary.cpp
index 92cdd8c..36ce3e1 100644
--- a/src/dictionary.cpp
+++ b/src/dictionary.cpp
@@ -74,11 +74,11 @@ Dictionary::get_plural_forms() const
 std::string
 Dictionary::translate_plural(const std::string& msgid, const std::string& msgid_plural, int num) const
 {
-  return translate_plural(entries, msgid, msgid_plural, num);
+  return translate_plural(entries, nullptr, msgid, msgid_plural, num);
 }
 
 std::string
-Dictionary::translate_plural(const Entries& dict, const std::string& msgid, const std::string& msgid_plural, int count) const
+Dictionary::translate_plural(const Entries& dict, const std::string* msgctxt, const std::string& msgid, const std::string& msgid_plural, int count) const
 {
   Entries::const_iterator it = dict.find(msgid);
   if (it != dict.end())
@@ -89,16 +89,13 @@ Dictionary::translate_plural(const Entries& dict, const std::string& msgid, cons
     {
       log_error << "Plural translation not available (and not set to empty): '" << msgid << "'" << std::endl;
       log_error << "Missing plural form: " << n << std::endl;
-      return msgid;
+      return untranslated_plural(msgctxt, msgid, msgid_plural, count);
     }
 
     if (!msgstrs[n].empty())
       return msgstrs[n];
     else
-      if (count == 1) // default to english rules
-        return msgid;
-      else
-        return msgid_plural;
+      return untranslated_plural(msgctxt, msgid, msgid_plural, count);
   }
   else
   {
@@ -107,21 +104,30 @@ Dictionary::translate_plural(const Entries& dict, const std::string& msgid, cons
     for (it = dict.begin(); it != dict.end(); ++it)
       log_info << "'" << it->first << "'" << std::endl;
 
-    if (count == 1) // default to english rules
-      return msgid;
-    else
-      return msgid_plural;
+    return untranslated_plural(msgctxt, msgid, msgid_plural, count);
   }
 }
 
+std::string
+Dictionary::untranslated_plural(const std::string* msgctxt, const std::string& msgid, const std::string& msgid_plural, int count) const
+{
+  if (m_has_fallback)
+    return msgctxt ? m_fallback->translate_ctxt_plural(*msgctxt, msgid, msgid_plural, count)
+                   : m_fallback->translate_plural(msgid, msgid_plural, count);
+  else if (count == 1) // default to english rules
+    return msgid;
+  else
+    return msgid_plural;
+}
+
 std::string
 Dictionary::translate(const std::string& msgid) const
 {
-  return translate(entries, msgid);
+  return translate(entries, nullptr, msgid);
 }
 
 std::string
-Dictionary::translate(const Entries& dict, const std::string& msgid) const
+Dictionary::translate(const Entries& dict, const std::string* msgctxt, const std::string& msgid) const
 {
   Entries::const_iterator i = dict.find(msgid);
   if (i != dict.end() && !i->second.empty() && !i->second[0].empty())
@@ -132,23 +138,32 @@ Dictionary::translate(const Entries& dict, const std::string& msgid) const
   {
     log_info << "Couldn't translate: " << msgid << std::endl;
 
-    if (m_has_fallback) return m_fallback->translate(msgid);
-    else return msgid;
+    return untranslated(msgctxt, msgid);
   }
 }
 
+std::string
+Dictionary::untranslated(const std::string* msgctxt, const std::string& msgid) const
+{
+  if (m_has_fallback)
+    return msgctxt ? m_fallback->translate_ctxt(*msgctxt, msgid)
+                   : m_fallback->translate(msgid);
+  else
+    return msgid;
+}
+
 std::string
 Dictionary::translate_ctxt(const std::string& msgctxt, const std::string& msgid) const
 {
   CtxtEntries::const_iterator i = ctxt_entries.find(msgctxt);
   if (i != ctxt_entries.end())
   {
-    return translate(i->second, msgid);
+    return translate(i->second, &msgctxt, msgid);
   }
   else
   {
     log_info << "Couldn't translate: " << msgid << std::endl;
-    return msgid;
+    return untranslated(&msgctxt, msgid);
   }
 }
 
@@ -159,15 +174,12 @@ Dictionary::translate_ctxt_plural(const std::string& msgctxt,
   CtxtEntries::const_iterator i = ctxt_entries.find(msgctxt);
   if (i != ctxt_entries.end())
   {
-    return translate_plural(i->second, msgid, msgidplural, num);
+    return translate_plural(i->second, &msgctxt, msgid, msgidplural, num);
   }
   else
   {
     log_info << "Couldn't translate: " << msgid << std::endl;
-    if (num != 1) // default to english
-      return msgidplural;
-    else
-      return msgid;
+    return untranslated_plural(&msgctxt, msgid, msgidplural, num);
   }
 }
 
-- 
2.43.0


From 8130e286cefc457fdc3fbc4f3bf15af6f71cb798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:39 +0000
Subject: [PATCH 12/17] fix: a message with a context and an empty msgid is not
 the header

---
 src/po_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/po_parser.cpp b/src/po_parser.cpp
index bd7d837..6fffede 100644
--- a/src/po_parser.cpp
+++ b/src/po_parser.cpp
@@ -452,7 +452,7 @@ POParser::parse()
         {
           std::string msgstr = get_string(6);
 
-          if (msgid.empty())
+          if (msgid.empty() && !has_msgctxt)
           {
             parse_header(msgstr);
           }
-- 
2.43.0


From 4fb33f4c146a3526fa4a054c6a35cd23b6799476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:39 +0000
Subject: [PATCH 13/17] fix: a directory that cannot be listed no longer loses
 the other directories' translations

---
 include/tinygettext/dictionary_manager.hpp |  3 +++
 src/dictionary_manager.cpp                 | 19 +++++++++++++++++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/tinygettext/dictionary_manager.hpp b/include/tinygettext/dictionary_manager.hpp
index 8e76653..2c3e897 100644
--- a/include/tinygettext/dictionary_manager.hpp
+++ b/include/tinygettext/dictionary_manager.hpp
@@ -94,6 +94,9 @@ public:
 
   std::string convertFilename2Language(const std::string &s_in) const;
 
+private:
+  std::vector<std::string> list_directory(const std::string& pathname) const;
+
 private:
   DictionaryManager (const DictionaryManager&);
   DictionaryManager& operator= (const DictionaryManager&);
diff --git a/src/dictionary_manager.cpp b/src/dictionary_manager.cpp
index b2ccd2e..114c58e 100644
--- a/src/dictionary_manager.cpp
+++ b/src/dictionary_manager.cpp
@@ -120,7 +120,7 @@ DictionaryManager::get_dictionary(const Language& language)
 
     for (SearchPath::reverse_iterator p = search_path.rbegin(); p != search_path.rend(); ++p)
     {
-      std::vector<std::string> files = filesystem->open_directory(*p);
+      std::vector<std::string> files = list_directory(*p);
 
       std::string best_filename;
       int best_score = 0;
@@ -182,6 +182,21 @@ DictionaryManager::get_dictionary(const Language& language)
   }
 }
 
+std::vector<std::string>
+DictionaryManager::list_directory(const std::string& pathname) const
+{
+  try
+  {
+    return filesystem->open_directory(pathname);
+  }
+  catch(std::exception& e)
+  {
+    log_error << "error: failure listing: " << pathname << std::endl;
+    log_error << e.what() << "" << std::endl;
+    return {};
+  }
+}
+
 std::set<Language>
 DictionaryManager::get_languages()
 {
@@ -189,7 +204,7 @@ DictionaryManager::get_languages()
 
   for (SearchPath::iterator p = search_path.begin(); p != search_path.end(); ++p)
   {
-    std::vector<std::string> files = filesystem->open_directory(*p);
+    std::vector<std::string> files = list_directory(*p);
 
     for(std::vector<std::string>::iterator file = files.begin(); file != files.end(); ++file)
     {
-- 
2.43.0


From c3ca4206a24f03bfb52e5f8fe4b8d6e31d5b1c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:54 +0000
Subject: [PATCH 14/17] fix: leave the converter in its initial shift state
 after each conversion

In charsets with shift states (ISO-2022-*) every text but the first one
lacked its escape sequences and so came out as other characters.
---
 src/iconv.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/iconv.cpp b/src/iconv.cpp
index 65d66df..d67ff74 100644
--- a/src/iconv.cpp
+++ b/src/iconv.cpp
@@ -143,6 +143,16 @@ IConv::convert(const std::string& text)
       break;
     }
 
+    // Go back to the initial shift state, for some charsets this takes a few more bytes
+    while (tinygettext::iconv(cd, nullptr, nullptr, &outbuf, &outbytesleft) == static_cast<size_t>(-1) &&
+           errno == E2BIG)
+    {
+      const size_t converted = result.size() - outbytesleft;
+      result.resize(result.size() + 16, 'X');
+      outbuf = &result[converted];
+      outbytesleft = result.size() - converted;
+    }
+
     result.resize(result.size() - outbytesleft);
 
     return result;
-- 
2.43.0


From e8f85415a5c73d3fe9ccc5626b50970cb0b5a081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:13 +0000
Subject: [PATCH 15/17] fix: build the language tables once, also when threads
 race for the first use

---
 src/language.cpp | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/language.cpp b/src/language.cpp
index 9ffe368..2edf7fd 100644
--- a/src/language.cpp
+++ b/src/language.cpp
@@ -297,9 +297,10 @@ std::string
 resolve_language_alias(const std::string& name)
 {
   typedef std::unordered_map<std::string, std::string> Aliases;
-  static Aliases language_aliases;
-  if (language_aliases.empty())
+  // built once, also when several threads get here at the same time
+  static const Aliases aliases = []
   {
+    Aliases language_aliases;
     // FIXME: Many of those are not useful for us, since we leave
     // encoding to the app, not to the language, we could/should
     // also match against all language names, not just aliases from
@@ -353,15 +354,16 @@ resolve_language_alias(const std::string& name)
     language_aliases["swedish"]          = "sv_SE.ISO-8859-1";
     language_aliases["thai"]             = "th_TH.TIS-620";
     language_aliases["turkish"]          = "tr_TR.ISO-8859-9";
-  }
+    return language_aliases;
+  }();
 
   std::string name_lowercase;
   name_lowercase.resize(name.size());
   for(std::string::size_type i = 0; i < name.size(); ++i)
     name_lowercase[i] = static_cast<char>(tolower(name[i]));
 
-  Aliases::iterator i = language_aliases.find(name_lowercase);
-  if (i != language_aliases.end())
+  Aliases::const_iterator i = aliases.find(name_lowercase);
+  if (i != aliases.end())
   {
     return i->second;
   }
@@ -377,18 +379,19 @@ Language
 Language::from_spec(const std::string& language, const std::string& country, const std::string& modifier)
 {
   typedef std::unordered_map<std::string, std::vector<const LanguageSpec*> > LanguageSpecMap;
-  static LanguageSpecMap language_map;
-
-  if (language_map.empty())
-  { // Init language_map
+  // built once, also when several threads get here at the same time
+  static const LanguageSpecMap language_map = []
+  {
+    LanguageSpecMap map;
     for(int i = 0; languages[i].language != nullptr; ++i)
-      language_map[languages[i].language].push_back(&languages[i]);
-  }
+      map[languages[i].language].push_back(&languages[i]);
+    return map;
+  }();
 
-  LanguageSpecMap::iterator i = language_map.find(language);
+  LanguageSpecMap::const_iterator i = language_map.find(language);
   if (i != language_map.end())
   {
-    std::vector<const LanguageSpec*>& lst = i->second;
+    const std::vector<const LanguageSpec*>& lst = i->second;
 
     LanguageSpec tmpspec;
     tmpspec.language = language.c_str();
@@ -398,7 +401,7 @@ Language::from_spec(const std::string& language, const std::string& country, con
 
     const LanguageSpec* best_match = nullptr;
     int best_match_score = 0;
-    for(std::vector<const LanguageSpec*>::iterator j = lst.begin(); j != lst.end(); ++j)
+    for(std::vector<const LanguageSpec*>::const_iterator j = lst.begin(); j != lst.end(); ++j)
     { // Search for the language that best matches the given spec, value country more then modifier
       int score = Language::match(Language(*j), tmplang);
 
-- 
2.43.0


From 4049429b4b7a0426c0cce34d93177dfaed63b515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:13 +0000
Subject: [PATCH 16/17] fix: build the plural form table once, also when
 threads race for the first use

---
 src/plural_forms.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/plural_forms.cpp b/src/plural_forms.cpp
index 05fe68f..0a44344 100644
--- a/src/plural_forms.cpp
+++ b/src/plural_forms.cpp
@@ -65,10 +65,10 @@ PluralForms
 PluralForms::from_string(const std::string& str)
 {
   typedef std::unordered_map<std::string, PluralForms> PluralFormsMap;
-  static PluralFormsMap plural_forms;
-
-  if (plural_forms.empty())
+  // built once, also when several threads get here at the same time
+  static const PluralFormsMap known_forms = []
   {
+    PluralFormsMap plural_forms;
     // Note that the plural forms here shouldn't contain any spaces
     plural_forms["Plural-Forms:nplurals=1;plural=0;"] = PluralForms(1, plural1);
     plural_forms["Plural-Forms:nplurals=2;plural=(n!=1);"] = PluralForms(2, plural2_1);
@@ -95,7 +95,8 @@ PluralForms::from_string(const std::string& str)
     plural_forms["Plural-Forms:nplurals=4;plural=(n==1&&n%1==0)?0:(n==2&&n%1==0)?1:(n%10==0&&n%1==0&&n>10)?2:3;"] = PluralForms(4, plural4_he);
     plural_forms["Plural-Forms:nplurals=5;plural=(n==1?0:n==2?1:n<7?2:n<11?3:4)"] = PluralForms(5, plural5_ga);
     plural_forms["Plural-Forms:nplurals=6;plural=n==0?0:n==1?1:n==2?2:n%100>=3&&n%100<=10?3:n%100>=11?4:5"]=PluralForms(6, plural6_ar);
-  }
+    return plural_forms;
+  }();
 
   // Remove spaces from string before lookup
   std::string space_less_str;
@@ -103,8 +104,8 @@ PluralForms::from_string(const std::string& str)
     if (!isspace(str[i]))
       space_less_str += str[i];
 
-  PluralFormsMap::const_iterator it= plural_forms.find(space_less_str);
-  if (it != plural_forms.end())
+  PluralFormsMap::const_iterator it= known_forms.find(space_less_str);
+  if (it != known_forms.end())
   {
     return it->second;
   }
-- 
2.43.0


From e068cd3b97291b7c7733ed0fb4308e095869e25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:47 +0000
Subject: [PATCH 17/17] fix: use ASCII rules for white space and letter case,
 whatever locale the program has set

---
 src/ascii.hpp              | 38 ++++++++++++++++++++++++++++++++++++++
 src/dictionary_manager.cpp |  5 +++--
 src/iconv.cpp              |  6 +++---
 src/language.cpp           |  4 +++-
 src/plural_forms.cpp       |  4 +++-
 src/po_parser.cpp          | 13 +++++++------
 6 files changed, 57 insertions(+), 13 deletions(-)
 create mode 100644 src/ascii.hpp

diff --git a/src/ascii.hpp b/src/ascii.hpp
new file mode 100644
index 0000000..d4b7ef5
--- /dev/null
+++ b/src/ascii.hpp
@@ -0,0 +1,38 @@
+//  tinygettext - A gettext replacement that works directly on .po files
+//
+//  This software is provided 'as-is', without any express or implied
+//  warranty. In no event will the authors be held liable for any damages
+//  arising from the use of this software.
+//
+//  Permission is granted to anyone to use this software for any purpose,
+//  including commercial applications, and to alter it and redistribute it
+//  freely, subject to the following restrictions:
+//
+//  1. The origin of this software must not be misrepresented; you must not
+//     claim that you wrote the original software. If you use this software
+//     in a product, an acknowledgement in the product documentation would be
+//     appreciated but is not required.
+//  2. Altered source versions must be plainly marked as such, and must not be
+//     misrepresented as being the original software.
+//  3. This notice may not be removed or altered from any source distribution.
+
+#ifndef HEADER_TINYGETTEXT_ASCII_HPP
+#define HEADER_TINYGETTEXT_ASCII_HPP
+
+namespace tinygettext {
+
+// Like the functions of <cctype>, but the same whatever locale the
+// program has set: only ASCII characters are classified and changed.
+
+inline bool ascii_isspace(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
+inline bool ascii_isupper(char c) { return c >= 'A' && c <= 'Z'; }
+inline bool ascii_islower(char c) { return c >= 'a' && c <= 'z'; }
+inline bool ascii_isalpha(char c) { return ascii_isupper(c) || ascii_islower(c); }
+inline char ascii_toupper(char c) { return ascii_islower(c) ? static_cast<char>(c - 'a' + 'A') : c; }
+inline char ascii_tolower(char c) { return ascii_isupper(c) ? static_cast<char>(c - 'A' + 'a') : c; }
+
+} // namespace tinygettext
+
+#endif
+
+/* EOF */
diff --git a/src/dictionary_manager.cpp b/src/dictionary_manager.cpp
index 114c58e..3f8818d 100644
--- a/src/dictionary_manager.cpp
+++ b/src/dictionary_manager.cpp
@@ -26,6 +26,7 @@
 #include <fstream>
 #include <algorithm>
 
+#include "ascii.hpp"
 #include "tinygettext/file_system.hpp"
 #include "tinygettext/log_stream.hpp"
 #include "tinygettext/po_parser.hpp"
@@ -302,9 +303,9 @@ std::string DictionaryManager::convertFilename2Language(const std::string &s_in)
             // we are done (en_GB.UTF-8) - only convert
             // the 'gb' part ... if we ever get this kind
             // of filename.
-            if(!::isalpha(s[i]))
+            if(!ascii_isalpha(s[i]))
                 break;
-            s[i] = static_cast<char>(::toupper(s[i]));
+            s[i] = ascii_toupper(s[i]);
         }
         else
             underscore_found = s[i]=='_';
diff --git a/src/iconv.cpp b/src/iconv.cpp
index d67ff74..f7fa2b0 100644
--- a/src/iconv.cpp
+++ b/src/iconv.cpp
@@ -17,7 +17,6 @@
 //    misrepresented as being the original software.
 // 3. This notice may not be removed or altered from any source distribution.
 
-#include <ctype.h>
 #include <assert.h>
 #include <sstream>
 #include <errno.h>
@@ -25,6 +24,7 @@
 #include <string.h>
 #include <stdlib.h>
 
+#include "ascii.hpp"
 #include "tinygettext/iconv.hpp"
 #include "tinygettext/log_stream.hpp"
 
@@ -63,10 +63,10 @@ IConv::set_charsets(const std::string& from_charset_, const std::string& to_char
   to_charset   = to_charset_;
 
   for(std::string::iterator i = to_charset.begin(); i != to_charset.end(); ++i)
-    *i = static_cast<char>(toupper(*i));
+    *i = ascii_toupper(*i);
 
   for(std::string::iterator i = from_charset.begin(); i != from_charset.end(); ++i)
-    *i = static_cast<char>(toupper(*i));
+    *i = ascii_toupper(*i);
 
   if (to_charset == from_charset)
   {
diff --git a/src/language.cpp b/src/language.cpp
index 2edf7fd..fdc5941 100644
--- a/src/language.cpp
+++ b/src/language.cpp
@@ -24,6 +24,8 @@
 #include <vector>
 #include <algorithm>
 
+#include "ascii.hpp"
+
 namespace tinygettext {
 
 struct LanguageSpec {
@@ -360,7 +362,7 @@ resolve_language_alias(const std::string& name)
   std::string name_lowercase;
   name_lowercase.resize(name.size());
   for(std::string::size_type i = 0; i < name.size(); ++i)
-    name_lowercase[i] = static_cast<char>(tolower(name[i]));
+    name_lowercase[i] = ascii_tolower(name[i]);
 
   Aliases::const_iterator i = aliases.find(name_lowercase);
   if (i != aliases.end())
diff --git a/src/plural_forms.cpp b/src/plural_forms.cpp
index 0a44344..b776bf4 100644
--- a/src/plural_forms.cpp
+++ b/src/plural_forms.cpp
@@ -21,6 +21,8 @@
 
 #include <unordered_map>
 
+#include "ascii.hpp"
+
 namespace tinygettext {
 
 namespace {
@@ -101,7 +103,7 @@ PluralForms::from_string(const std::string& str)
   // Remove spaces from string before lookup
   std::string space_less_str;
   for(std::string::size_type i = 0; i < str.size(); ++i)
-    if (!isspace(str[i]))
+    if (!ascii_isspace(str[i]))
       space_less_str += str[i];
 
   PluralFormsMap::const_iterator it= known_forms.find(space_less_str);
diff --git a/src/po_parser.cpp b/src/po_parser.cpp
index 6fffede..8415032 100644
--- a/src/po_parser.cpp
+++ b/src/po_parser.cpp
@@ -27,6 +27,7 @@
 #include <unordered_map>
 #include <stdlib.h>
 
+#include "ascii.hpp"
 #include "tinygettext/language.hpp"
 #include "tinygettext/log_stream.hpp"
 #include "tinygettext/iconv.hpp"
@@ -155,7 +156,7 @@ POParser::get_string_line(std::ostringstream& out, size_t skip)
 
   // process trailing garbage in line and warn if there is any
   for(i = i+1; i < current_line.size(); ++i)
-    if (!isspace(current_line[i]))
+    if (!ascii_isspace(current_line[i]))
     {
       warning("unexpected garbage after string ignoren");
       break;
@@ -188,7 +189,7 @@ POParser::get_string(unsigned int skip)
         get_string_line(out, skip);
         break;
       }
-      else if (!isspace(current_line[skip]))
+      else if (!ascii_isspace(current_line[skip]))
       {
         error("string must start with '\"'");
       }
@@ -214,7 +215,7 @@ next:
       get_string_line(out,  i);
       goto next;
     }
-    else if (isspace(current_line[i]))
+    else if (ascii_isspace(current_line[i]))
     {
       // skip
     }
@@ -255,7 +256,7 @@ POParser::parse_header(const std::string& header)
           from_charset = line.substr(len);
 
           for(std::string::iterator ch = from_charset.begin(); ch != from_charset.end(); ++ch)
-            *ch = static_cast<char>(toupper(*ch));
+            *ch = ascii_toupper(*ch);
         }
         else
         {
@@ -310,13 +311,13 @@ POParser::is_empty_line()
   }
   else if (current_line[0] == '#')
   { // handle comments as empty lines
-    return (current_line.size() == 1 || (current_line.size() >= 2 && isspace(current_line[1])));
+    return (current_line.size() == 1 || (current_line.size() >= 2 && ascii_isspace(current_line[1])));
   }
   else
   {
     for(std::string::iterator i = current_line.begin(); i != current_line.end(); ++i)
     {
-      if (!isspace(*i))
+      if (!ascii_isspace(*i))
         return false;
     }
   }
-- 
2.43.0

