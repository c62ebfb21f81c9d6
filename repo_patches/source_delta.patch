From e4813201493172ea276f1802db5bc29683f38c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:21 +0000
Subject: [PATCH 01/16] fix: do not read past the end when a word ends in a
 leading vowel

A word (or a word segment) ending in SARA AE, SARA O or SARA AI made the
parser look for an initial consonant beyond the stop position. It failed
an assertion, or threw out_of_range when assertions were disabled.
Leave such input unparsed, as it is already done for SARA E.
---
 parser/parser.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parser.cxx b/parser/parser.cxx
index 6641bd0..d69a4a8 100644
--- a/parser/parser.cxx
+++ b/parser/parser.cxx
@@ -1498,6 +1498,10 @@ ParseOtherLV (const u16string& u16word, const ParseState& state,
     assert (th_wcisldvowel (u16word.at (state.pos)));
     assert (UTH_SARA_E != u16word.at (state.pos));
 
+    if (state.pos + 1 >= state.stopPos) {
+        return;
+    }
+
     auto ldv = u16word.at (state.pos);
 
     list<PartialSyl> partialSyls = MatchInitCons (u16word, state.pos + 1,
-- 
2.43.0


From ef3e19855b8d8d5f743ac04bb90d702ce9ccd900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:21 +0000
Subject: [PATCH 02/16] fix: do not abort on words that are not valid UTF-8

The UTF-8 decoder threw an uncaught range_error, which terminated the
program and lost all the remaining words. Treat such a word as one with
no pronunciation instead.
---
 parser/parser.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/parser.cxx b/parser/parser.cxx
index d69a4a8..e7546fa 100644
--- a/parser/parser.cxx
+++ b/parser/parser.cxx
@@ -1979,8 +1979,8 @@ FindBreaks (const u16string& u16word, ThBrk* thBrk)
 PronunDAG
 Parser::parseWord (string word) const
 {
-    // convert UTF-8 word string to UTF-16
-    wstring_convert<codecvt_utf8_utf16<char16_t>, char16_t> u16conv;
+    // convert UTF-8 word string to UTF-16 (empty string on invalid UTF-8)
+    wstring_convert<codecvt_utf8_utf16<char16_t>, char16_t> u16conv ("", u"");
     u16string u16word = u16conv.from_bytes (word);
 
     auto brkPos = FindBreaks (u16word, mThBrk);
-- 
2.43.0


From 6450fbf61238184f7c443b125d896ab097b05949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:00:21 +0000
Subject: [PATCH 03/16] fix: merge equivalent parse states regardless of pool
 order

A linked and an unlinked state can share the same position. When the
other kind came first in the pool, a new state was inserted before its
equivalent instead of being merged into it. The duplicates multiplied
at each syllable, so the parsing time grew exponentially, e.g. for
repeated syllables like the word formed by TO TAO, RO RUA, SARA AA.
---
 parser/parser.cxx | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/parser/parser.cxx b/parser/parser.cxx
index e7546fa..a10e2ab 100644
--- a/parser/parser.cxx
+++ b/parser/parser.cxx
@@ -124,17 +124,18 @@ private:
 void
 StatePool::add (const ParseState& state)
 {
-    for (auto it = mStates.begin(); it != mStates.end(); ++it) {
-        if (it->pos == state.pos && it->isLinked == state.isLinked) {
+    auto insIt = mStates.begin();
+    while (insIt != mStates.end() && insIt->pos < state.pos) {
+        ++insIt;
+    }
+    // merge with the equivalent state, if any, among those at the same pos
+    for (auto it = insIt; it != mStates.end() && it->pos == state.pos; ++it) {
+        if (it->isLinked == state.isLinked) {
             it->pronDAG.unionDAG (state.pronDAG);
             return;
         }
-        if (it->pos >= state.pos) {
-            mStates.insert (it, state);
-            return;
-        }
     }
-    mStates.push_back (state);
+    mStates.insert (insIt, state);
 }
 
 bool
-- 
2.43.0


From 990a14881f6dd06ef06b145a33033c4ccf1390c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:13 +0000
Subject: [PATCH 04/16] fix: output an empty JSON array for a word with no
 pronunciation

The first element of the list was accessed without checking if it
existed, so the program crashed on such a word with the -j option.
---
 output/output-json.cxx | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/output/output-json.cxx b/output/output-json.cxx
index f37fbb9..27b2a00 100644
--- a/output/output-json.cxx
+++ b/output/output-json.cxx
@@ -27,10 +27,11 @@ JsonOutput::output (const list<SylString>& strList) const
     string outStr;
 
     outStr = "[";
-    auto i = strList.begin();
-    outStr += output (*i);
-    while (++i != strList.end()) {
-        outStr += "," + output (*i);
+    for (auto i = strList.begin(); i != strList.end(); ++i) {
+        if (i != strList.begin()) {
+            outStr += ",";
+        }
+        outStr += output (*i);
     }
     outStr += "]";
 
-- 
2.43.0


From 7408d87bf6657e52a63a208645d9475c3b3089ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:13 +0000
Subject: [PATCH 05/16] fix: escape special characters in JSON strings

Literal text with a double quote, a backslash or a control character
(e.g. a TAB) was output as is, resulting in malformed JSON.
---
 output/output-json.cxx | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/output/output-json.cxx b/output/output-json.cxx
index 27b2a00..69f3cfa 100644
--- a/output/output-json.cxx
+++ b/output/output-json.cxx
@@ -4,17 +4,40 @@
 
 #include "output-json.h"
 
+#include <cstdio>
+
 using namespace std;
 
+static string
+JsonQuote (const string& str)
+{
+    string outStr = "\"";
+
+    for (unsigned char c : str) {
+        if ('"' == c || '\\' == c) {
+            outStr += '\\';
+            outStr += c;
+        } else if (c < 0x20) {
+            char buff[8];
+            snprintf (buff, sizeof buff, "\\u%04x", c);
+            outStr += buff;
+        } else {
+            outStr += c;
+        }
+    }
+
+    return outStr + "\"";
+}
+
 string
 JsonOutput::output (const SylString& sylStr) const
 {
     string outStr;
 
     auto i = sylStr.begin();
-    outStr = "[\"" + mSylOutput->output (*i) + "\"";
+    outStr = "[" + JsonQuote (mSylOutput->output (*i));
     while (++i != sylStr.end()) {
-        outStr += ",\"" + mSylOutput->output (*i) + "\"";
+        outStr += "," + JsonQuote (mSylOutput->output (*i));
     }
     outStr += "]";
 
-- 
2.43.0


From 3c319794c5447269c9152d457f00778562cd7e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:13 +0000
Subject: [PATCH 06/16] fix: recognize --help in any position on the command
 line

The first argument was always the one compared, so --help was reported
as an unknown option if any argument preceded it.
---
 thpronun/thpronun.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thpronun/thpronun.cxx b/thpronun/thpronun.cxx
index 66815fd..b03d58b 100644
--- a/thpronun/thpronun.cxx
+++ b/thpronun/thpronun.cxx
@@ -201,7 +201,7 @@ main (int argc, const char* argv[])
                 if (strcmp (argv[i]+2, "version") == 0) {
                     Version (argv[0]);
                     return 1;
-                } else if (strcmp (argv[1]+2, "help") == 0) {
+                } else if (strcmp (argv[i]+2, "help") == 0) {
                     Usage (argv[0]);
                     return 1;
                 } else {
-- 
2.43.0


From 95bdfbd4492a4866b3eeaa38e26512fe4a32c9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:13 +0000
Subject: [PATCH 07/16] fix: discard a partially loaded exception dictionary

When the trie was read but its data was not, e.g. for a truncated file,
loading failed but the trie stayed in use and the parser accessed the
missing data on the first match. Also reject a negative data size.
---
 dict/dict.cxx | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dict/dict.cxx b/dict/dict.cxx
index 7d32077..de6dd16 100644
--- a/dict/dict.cxx
+++ b/dict/dict.cxx
@@ -27,7 +27,7 @@ static char*
 ReadDataBank (FILE* input)
 {
     int bankSize;
-    if (!ReadInt32 (input, bankSize))
+    if (!ReadInt32 (input, bankSize) || bankSize < 0)
         return nullptr;
 
     char* data = new char[bankSize];
@@ -52,7 +52,13 @@ Dict::open (const char* dictPath)
     mData = ReadDataBank (dictFile);
 
     fclose (dictFile);
-    return mTrie != nullptr && mData != nullptr;
+
+    if (!mTrie || !mData) {
+        // do not leave a half-loaded dictionary in use
+        close();
+        return false;
+    }
+    return true;
 }
 
 void
-- 
2.43.0


From 39b3852a23372c6925b488116098f27f965670da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:13 +0000
Subject: [PATCH 08/16] fix: avoid strict aliasing violation in gen-lookup-dict

The UTF-8 reader updated a char pointer through a pointer to unsigned
char pointer. With the default -O2, the update could be missed, and the
tool stopped at the first entry and wrote an almost empty dictionary.
---
 dict/gen-lookup-dict.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dict/gen-lookup-dict.c b/dict/gen-lookup-dict.c
index 12b608f..7fbd81a 100644
--- a/dict/gen-lookup-dict.c
+++ b/dict/gen-lookup-dict.c
@@ -182,6 +182,7 @@ ReadInput (uint32_t *word, int wordMax, char *data, int dataMax, FILE* input)
 {
     char *line = (char *) malloc (wordMax);
     char *pLine;
+    const unsigned char *pKey;
     size_t lineLeft;
     uint32_t *pWord;
 
@@ -207,10 +208,10 @@ ReadInput (uint32_t *word, int wordMax, char *data, int dataMax, FILE* input)
     strncpy (data, pLine + 1, dataMax);
 
     /* read UTF-8-encoded word */
-    pLine = line;
+    pKey = (const unsigned char *) line;
     pWord = word;
-    while (*pLine && pWord - word < wordMax - 1) {
-        if (GetUTF8 ((const unsigned char **)&pLine, pWord) == EXIT_SUCCESS) {
+    while (*pKey && pWord - word < wordMax - 1) {
+        if (GetUTF8 (&pKey, pWord) == EXIT_SUCCESS) {
             pWord++;
         } else {
             fprintf (stderr, "Fail to convert word '%s'.\n", line);
-- 
2.43.0


From 5bf2994d5eb1b955323f988f5532f0c04bb0741e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:39 +0000
Subject: [PATCH 09/16] fix: make gen-lookup-dict fail on malformed input lines

A line with no TAB, with invalid UTF-8 or longer than the line buffer
was taken as the end of input. The entries after it were lost, and the
tool still reported success.
---
 dict/gen-lookup-dict.c | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/dict/gen-lookup-dict.c b/dict/gen-lookup-dict.c
index 7fbd81a..1803785 100644
--- a/dict/gen-lookup-dict.c
+++ b/dict/gen-lookup-dict.c
@@ -177,6 +177,7 @@ GetUTF8 (const unsigned char **input, uint32_t *output)
     return EXIT_SUCCESS;
 }
 
+/* return 1 if an entry is read, 0 at the end of input, -1 on error */
 int
 ReadInput (uint32_t *word, int wordMax, char *data, int dataMax, FILE* input)
 {
@@ -186,13 +187,20 @@ ReadInput (uint32_t *word, int wordMax, char *data, int dataMax, FILE* input)
     size_t lineLeft;
     uint32_t *pWord;
 
-    if (!fgets (line, wordMax, input))
+    if (!fgets (line, wordMax, input)) {
+        if (ferror (input))
+            goto err;
         goto eof;
+    }
 
     /* trim newline */
     lineLeft = strlen (line);
-    if (line[lineLeft - 1] == '\n') {
+    if (lineLeft > 0 && line[lineLeft - 1] == '\n') {
         line[--lineLeft] = '\0';
+    } else if (!feof (input)) {
+        fprintf (stderr, "Line too long.\n");
+        fprintf (stderr, "Line:%s\n", line);
+        goto err;
     }
 
     /* split fields */
@@ -221,12 +229,15 @@ ReadInput (uint32_t *word, int wordMax, char *data, int dataMax, FILE* input)
     *pWord = 0;
 
     free (line);
-    return EXIT_SUCCESS;
+    return 1;
 
 eof:
+    free (line);
+    return 0;
+
 err:
     free (line);
-    return EXIT_FAILURE;
+    return -1;
 }
 
 int
@@ -236,9 +247,10 @@ GenDict (FILE *input, FILE *output)
     char data[256];
     Trie *trie = NewTrie();
     DataBank *bank = NewDataBank();
+    int res;
 
-    while (ReadInput (word, N_ELM (word),
-                      data, N_ELM (data), input) == EXIT_SUCCESS)
+    while ((res = ReadInput (word, N_ELM (word),
+                             data, N_ELM (data), input)) > 0)
     {
         int dataIdx = DataBankAddData (bank, data);
         if (dataIdx < 0) {
@@ -262,6 +274,10 @@ GenDict (FILE *input, FILE *output)
         }
     }
 
+    if (res < 0) {
+        goto err;
+    }
+
     trie_fwrite (trie, output);
     DataBankWrite (bank, output);
 
-- 
2.43.0


From 1cdf22228e111372bb34f68f4fad2aa59eba052b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:55 +0000
Subject: [PATCH 10/16] fix: report write errors in gen-lookup-dict, allow no
 entries

A failed write, e.g. on a full disk, left a truncated dictionary with
success status. As an empty data block cannot be told from a failed
one by fwrite() or fread(), skip it in both the writer and the reader.
---
 dict/dict.cxx          |  2 +-
 dict/gen-lookup-dict.c | 13 ++++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/dict/dict.cxx b/dict/dict.cxx
index de6dd16..c76db27 100644
--- a/dict/dict.cxx
+++ b/dict/dict.cxx
@@ -31,7 +31,7 @@ ReadDataBank (FILE* input)
         return nullptr;
 
     char* data = new char[bankSize];
-    if (fread (data, bankSize, 1, input) != 1) {
+    if (bankSize > 0 && fread (data, bankSize, 1, input) != 1) {
         delete[] data;
         return nullptr;
     }
diff --git a/dict/gen-lookup-dict.c b/dict/gen-lookup-dict.c
index 1803785..5a38568 100644
--- a/dict/gen-lookup-dict.c
+++ b/dict/gen-lookup-dict.c
@@ -109,7 +109,9 @@ DataBankWrite (const DataBank *bank, FILE *output)
     if (FileWriteInt32 (output, bank->dataSize) != EXIT_SUCCESS) {
         return EXIT_FAILURE;
     }
-    if (fwrite (bank->pool, bank->dataSize, 1, output) != 1) {
+    if (bank->dataSize > 0
+        && fwrite (bank->pool, bank->dataSize, 1, output) != 1)
+    {
         return EXIT_FAILURE;
     }
 
@@ -278,8 +280,13 @@ GenDict (FILE *input, FILE *output)
         goto err;
     }
 
-    trie_fwrite (trie, output);
-    DataBankWrite (bank, output);
+    if (trie_fwrite (trie, output) != 0
+        || DataBankWrite (bank, output) != EXIT_SUCCESS
+        || fflush (output) != 0)
+    {
+        fprintf (stderr, "Failed to write dictionary\n");
+        goto err;
+    }
 
     FreeDataBank (bank);
     trie_free (trie);
-- 
2.43.0


From 36796fbad720849192b42e265d138c937b5cc1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:01:55 +0000
Subject: [PATCH 11/16] fix: keep inserting hyphens in Romanization after a
 blank

The flag telling the beginning of a word was set at a blank but was
never reset, so all the hyphens after the first blank were missing.
---
 output/output-roman.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/output/output-roman.cxx b/output/output-roman.cxx
index b0e8f57..841aebf 100644
--- a/output/output-roman.cxx
+++ b/output/output-roman.cxx
@@ -18,7 +18,7 @@ RomanOutput::output (const SylString& sylStr) const
     if (mIsCapitalize) {
         outStr[0] = toupper (outStr[0]);
     }
-    bool isBegin = false;
+    bool isBegin = (*i == Syl::Blank);
     for (auto prev = i++; i != sylStr.end(); prev = i++) {
         if (*i == Syl::Blank) {
             outStr += " ";
@@ -37,6 +37,7 @@ RomanOutput::output (const SylString& sylStr) const
             outStr += '-';
         }
         outStr += mRomanSylOutput.output (*i);
+        isBegin = false;
     }
 
     return outStr;
-- 
2.43.0


From 403283e2c9152d2d6c2bf12bb4cc48a80a49d8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:02:12 +0000
Subject: [PATCH 12/16] fix: keep alternatives unique regardless of insertion
 order

Equality of syllable strings ignores the end positions but the sort
order does not. So, the same pronunciation was added twice if it came
with smaller end positions first, or if another alternative was sorted
in between.
---
 lattice/lattice.cxx | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lattice/lattice.cxx b/lattice/lattice.cxx
index 0e75205..fc919d9 100644
--- a/lattice/lattice.cxx
+++ b/lattice/lattice.cxx
@@ -4,6 +4,8 @@
 
 #include "lattice.h"
 
+#include <algorithm>
+
 using namespace std;
 
 ////////////////////////
@@ -24,13 +26,17 @@ PronunFrac&
 PronunFrac::operator+= (const SylString& sylString)
 {
     // keep mAltPronuns sorted & unique
+    // (same pronunciation with different syllable boundaries may sort apart)
+    if (find (mAltPronuns.begin(), mAltPronuns.end(), sylString)
+            != mAltPronuns.end())
+    {
+        return *this;
+    }
     auto it = mAltPronuns.begin();
     while (it != mAltPronuns.end() && *it < sylString) {
         ++it;
     }
-    if (it == mAltPronuns.end() || *it != sylString) {
-        mAltPronuns.insert (it, sylString);
-    }
+    mAltPronuns.insert (it, sylString);
 
     return *this;
 }
-- 
2.43.0


From cdaa925a312cfd48d1a82d926a811c65a68a1c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:30:02 +0000
Subject: [PATCH 13/16] fix: end the word being read at a full stop
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

A full stop that is not part of an abbreviation was treated as a letter
inside the word. Endings that depend on the end of the word, like in
"ไทย." or "ญาติ.", lost their readings, and exception words right
before a full stop were not recognized.
---
 parser/parser.cxx | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/parser/parser.cxx b/parser/parser.cxx
index a10e2ab..fc6d619 100644
--- a/parser/parser.cxx
+++ b/parser/parser.cxx
@@ -6,6 +6,7 @@
 #include "thortho/thuni.h"
 #include "sylstring/sylstring.h"
 
+#include <algorithm>
 #include <locale>
 #include <codecvt>
 #include <thai/thwctype.h>
@@ -1891,15 +1892,24 @@ ParseU16 (const u16string& u16word, const Dict* exceptDict,
             }
             pool.add (s);
         } else {
+            // a full stop not belonging to an abbreviation ends the word
+            auto c = u16word.at (s.pos);
+            auto tokenStop = s.stopPos;
+            auto wordStop = tokenStop;
+            if (u'.' != c) {
+                wordStop = min<size_t> (u16word.find (u'.', s.pos), tokenStop);
+            }
+            s.stopPos = wordStop;
             if (exceptDict
                 && FindExceptions (u16word, s, pool, exceptDict) > 0)
             {
                 continue;
             }
+            s.stopPos = tokenStop;
             if (FindAbbr (u16word, s, pool)) {
                 continue;
             }
-            auto c = u16word.at (s.pos);
+            s.stopPos = wordStop;
             if (th_wcisthcons (c)) {
                 ParseThCons (u16word, s, pool);
             } else if (UTH_SARA_E == c) {
-- 
2.43.0


From 3ef3e08bda9f3d6c2a1bf76e16edd1e3cf655dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:44:32 +0000
Subject: [PATCH 14/16] fix: do not match a dictionary key across a NUL
 character

---
 dict/dict.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dict/dict.cxx b/dict/dict.cxx
index c76db27..4118405 100644
--- a/dict/dict.cxx
+++ b/dict/dict.cxx
@@ -104,7 +104,9 @@ Match::findNext()
     if (!mTrieState)
         return false;
 
+    // NUL is the terminator in the trie, not a part of any key
     while (mCurPos < mWord.size()
+           && 0 != mWord[mCurPos]
            && trie_state_walk (mTrieState, mWord[mCurPos]))
     {
         ++mCurPos;
-- 
2.43.0


From 2d48b8dfe95006eadbb342d1e82732e544c73c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:11:36 +0000
Subject: [PATCH 15/16] =?UTF-8?q?fix:=20give=20the=20dictionary=20word=20?=
 =?UTF-8?q?=E0=B8=97=E0=B8=A3=E0=B8=A7=E0=B8=94=20its=20falling=20tone?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 data/ex-tr-so.tsv | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data/ex-tr-so.tsv b/data/ex-tr-so.tsv
index e059275..1fbff09 100644
--- a/data/ex-tr-so.tsv
+++ b/data/ex-tr-so.tsv
@@ -3,7 +3,7 @@
 ฉะเชิงเทรา	J_a_1@2,J_Wg0@6,s_aw0@10
 ทรง	s_og0@3
 ทรวง	s_Tg0@4
-ทรวด	s_Tt3@4
+ทรวด	s_Tt2@4
 ทรัพย์	s_ap3@6
 ทรัพยากร	s_ap3@3,P_a_3@4,y_A_0@6,k_Cn0@8
 ทราบ	s_Ap2@4
-- 
2.43.0


From 8dbf6e03819203bbb6583563397f073c2a31e392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:26:47 +0000
Subject: [PATCH 16/16] fix: reject overlong UTF-8 sequences in dictionary keys

---
 dict/gen-lookup-dict.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dict/gen-lookup-dict.c b/dict/gen-lookup-dict.c
index 5a38568..f0ade77 100644
--- a/dict/gen-lookup-dict.c
+++ b/dict/gen-lookup-dict.c
@@ -171,6 +171,10 @@ GetUTF8 (const unsigned char **input, uint32_t *output)
             ++in;
             check <<= 1;
         }
+        if (uc < (in - *input == 2 ? 0x80 : 1u << (5 * (in - *input) - 4))) {
+            /* longer than needed -> invalid */
+            return EXIT_FAILURE;
+        }
     }
 
     *input = in;
-- 
2.43.0

