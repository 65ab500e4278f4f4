From 40c92739047994afcfcc80e56cd98eb702f45ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:56 +0000
Subject: [PATCH 01/22] fix: pretransfer: keep the character after a single ]
 inside a word-bound blank

---
 apertium/pretransfer.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apertium/pretransfer.cc b/apertium/pretransfer.cc
index deb1be7..d440e8c 100644
--- a/apertium/pretransfer.cc
+++ b/apertium/pretransfer.cc
@@ -41,6 +41,7 @@ UString storeAndWriteWblank(InputFile& input, UFILE* output)
         u_fputc(mychar, output);
         break;
       }
+      input.unget(mychar);
     }
   }
 
-- 
2.43.0


From bc47f3c3ba30ff47b7adf0383039a64864608bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:56 +0000
Subject: [PATCH 02/22] fix: pretransfer: do not loop for ever when the input
 ends in a surface form (-n)

---
 apertium/pretransfer.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/apertium/pretransfer.cc b/apertium/pretransfer.cc
index d440e8c..631970d 100644
--- a/apertium/pretransfer.cc
+++ b/apertium/pretransfer.cc
@@ -80,6 +80,11 @@ void procWord(InputFile& input, UFILE* output, bool surface_forms, bool compound
   if(surface_forms)
   {
     while((mychar = input.get()) != '/') {
+      if(input.eof())
+      {
+        std::cerr << "ERROR: Unexpected EOF" << std::endl;
+        exit(EXIT_FAILURE);
+      }
       if (mychar == '\\') input.get();
     }
   }
-- 
2.43.0


From 72ce0c8f34842bfff8e8c03fa6c770d21875aabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:56 +0000
Subject: [PATCH 03/22] fix: pretransfer: an escaped character inside a lexical
 unit is not markup

---
 apertium/pretransfer.cc | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/apertium/pretransfer.cc b/apertium/pretransfer.cc
index 631970d..0b75cae 100644
--- a/apertium/pretransfer.cc
+++ b/apertium/pretransfer.cc
@@ -97,6 +97,28 @@ void procWord(InputFile& input, UFILE* output, bool surface_forms, bool compound
       exit(EXIT_FAILURE);
     }
 
+    if(mychar == '\\')
+    {
+      // an escaped character is never markup
+      int const escaped = input.get();
+      if(input.eof())
+      {
+        std::cerr << "ERROR: Unexpected EOF" << std::endl;
+        exit(EXIT_FAILURE);
+      }
+      if(buffer_mode)
+      {
+        buffer += mychar;
+        buffer += escaped;
+      }
+      else
+      {
+        u_fputc(mychar, output);
+        u_fputc(escaped, output);
+      }
+      continue;
+    }
+
     switch(mychar)
     {
     case '<':
-- 
2.43.0


From dbb4a548a9658d51e7ee644a19971c4be063714f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:04 +0000
Subject: [PATCH 04/22] fix: transfer: a word-bound blank may begin with an
 escaped character

The first character after [[ was stored without its escaped successor, so
that [[\$...]] ended the unit early and the rest of the input was lost
in an endless loop.
---
 apertium/transfer.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apertium/transfer.cc b/apertium/transfer.cc
index 3b8a585..38248cb 100644
--- a/apertium/transfer.cc
+++ b/apertium/transfer.cc
@@ -808,6 +808,10 @@ Transfer::readToken(InputFile& in)
     {
       content = "[["_u;
       content += val;
+      if(val == '\\')
+      {
+        content += in.get();
+      }
 
       while(true)
       {
-- 
2.43.0


From 832f6f76fd452a75759b4c8347717dcc20c94717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:50 +0000
Subject: [PATCH 05/22] fix: transfer: modify-case with queue="no" must not
 drop the queue

---
 apertium/transfer.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/apertium/transfer.cc b/apertium/transfer.cc
index 38248cb..88c4338 100644
--- a/apertium/transfer.cc
+++ b/apertium/transfer.cc
@@ -703,7 +703,7 @@ Transfer::processModifyCase(xmlNode *localroot)
     {
       UString const result = StringUtils::copycase(evalString(rightSide),
 				      word[pos]->source(attr_items[part], queue));
-      bool match = word[pos]->setSource(attr_items[part], result);
+      bool match = word[pos]->setSource(attr_items[part], result, queue);
       if(!match && trace)
       {
         cerr << "apertium-transfer warning: <modify-case> on line " << localroot->line << " sometimes discards its value." << endl;
@@ -713,7 +713,7 @@ Transfer::processModifyCase(xmlNode *localroot)
     {
       UString const result = StringUtils::copycase(evalString(rightSide),
               word[pos]->reference(attr_items[part], queue));
-      bool match = word[pos]->setReference(attr_items[part], result);
+      bool match = word[pos]->setReference(attr_items[part], result, queue);
       if(!match && trace)
       {
         cerr << "apertium-transfer warning: <modify-case> on line " << localroot->line << " sometimes discards its value." << endl;
@@ -723,7 +723,7 @@ Transfer::processModifyCase(xmlNode *localroot)
     {
       UString const result = StringUtils::copycase(evalString(rightSide),
 				     word[pos]->target(attr_items[part], queue));
-      bool match = word[pos]->setTarget(attr_items[part], result);
+      bool match = word[pos]->setTarget(attr_items[part], result, queue);
       if(!match && trace)
       {
         cerr << "apertium-transfer warning: <modify-case> on line " << localroot->line << " sometimes discards its value." << endl;
-- 
2.43.0


From 30408f688ec689b5b983b24cce25533a6774b580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:50 +0000
Subject: [PATCH 06/22] fix: transfer: leave the unit after an mlu, and allow
 one inside a macro without parameters

---
 apertium/transfer.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/apertium/transfer.cc b/apertium/transfer.cc
index 88c4338..ae57afa 100644
--- a/apertium/transfer.cc
+++ b/apertium/transfer.cc
@@ -362,7 +362,9 @@ Transfer::processMlu(xmlNode* element)
 	value.append(myword);
   }
 
-  if(last_lword == 1) {
+  in_lu = false;
+
+  if(last_lword == 1 && word != nullptr) {
     out_wblank = word[0]->getWblank();
   }
 
-- 
2.43.0


From 445079072b1b4cde4bf36cd24dc13452132ef12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:08 +0000
Subject: [PATCH 07/22] fix: postchunk: keep the last character of a chunk when
 it stands outside a lexical unit

---
 apertium/postchunk.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index 5189c7b..12d21a0 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -820,7 +820,7 @@ Postchunk::beginChunk(UString const &chunk)
 int
 Postchunk::endChunk(UString const &chunk)
 {
-  return chunk.size()-2;
+  return chunk.size()-1;
 }
 
 UString
-- 
2.43.0


From d6218bc708453efb5aeac279fce58c218df59814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:16 +0000
Subject: [PATCH 08/22] fix: transfer: a rejected rule must not output the
 blanks it gives back

---
 apertium/transfer_base.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/apertium/transfer_base.cc b/apertium/transfer_base.cc
index a5403ef..51eec53 100644
--- a/apertium/transfer_base.cc
+++ b/apertium/transfer_base.cc
@@ -262,9 +262,10 @@ TransferBase::processRule(xmlNode* localroot)
       break;
     }
   }
-  // flush remaining non-space blanks
+  // flush remaining non-space blanks, unless the rule was rejected without
+  // consuming anything: then they will be read again along with the words
   while (!blank_queue.empty()) {
-    if (blank_queue.front() != " "_u) {
+    if (words_to_consume != 0 && blank_queue.front() != " "_u) {
       write(blank_queue.front(), output);
     }
     blank_queue.pop();
-- 
2.43.0


From e5565ec9bade735e873da01928f982fd8f109487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:42 +0000
Subject: [PATCH 09/22] fix: postchunk: do not carry a blank over to the next
 null-flushed text

---
 apertium/postchunk.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index 12d21a0..a20178a 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -667,6 +667,7 @@ Postchunk::postchunk(InputFile& in, UFILE* out)
       }
       else {
         write(current.getContent(), output);
+        tmpblank.clear();
         return;
       }
       break;
-- 
2.43.0


From 1d049b83f6c8325fbf0d4b15e394310355c4ccc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:12 +0000
Subject: [PATCH 10/22] fix: transfer, postchunk: forget the word-bound blanks
 of variables at the end of a null-flushed text

---
 apertium/postchunk.cc | 1 +
 apertium/transfer.cc  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index a20178a..676c872 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -539,6 +539,7 @@ Postchunk::postchunk_wrapper_null_flush(InputFile& in, UFILE* out)
     u_fputc('\0', out);
     u_fflush(out);
     variables = variable_defaults;
+    var_out_wblank.clear();
   }
 
   internal_null_flush = false;
diff --git a/apertium/transfer.cc b/apertium/transfer.cc
index ae57afa..fa836f2 100644
--- a/apertium/transfer.cc
+++ b/apertium/transfer.cc
@@ -914,6 +914,7 @@ Transfer::tmp_clear()
   tmpblank.clear();
   tmpword.clear();
   variables = variable_defaults;
+  var_out_wblank.clear();
 }
 
 void
-- 
2.43.0


From a354f5e0aafbfcc4cf70435ba9960ccd4b6fc3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:56 +0000
Subject: [PATCH 11/22] fix: tagger stream: report an unterminated lexical unit
 instead of reading past the end for ever

---
 apertium/morpheme.cc | 4 ++--
 apertium/stream.cc   | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/apertium/morpheme.cc b/apertium/morpheme.cc
index 7a78c36..87446dd 100644
--- a/apertium/morpheme.cc
+++ b/apertium/morpheme.cc
@@ -66,7 +66,7 @@ void
 Morpheme::read(InputFile& in)
 {
   UChar32 c = in.get();
-  while (c != '<' && c != '$' && c != '/' && c != '\0') {
+  while (c != '<' && c != '$' && c != '/' && c != '\0' && c != U_EOF) {
     TheLemma += c;
     if (c == '\\') {
       if (in.eof() || in.peek() == '\0') {
@@ -91,7 +91,7 @@ Morpheme::read(InputFile& in)
     throw Exception::Morpheme::TheTags_empty("morpheme has no tags");
   }
   if (c == '#') {
-    while (c != '<' && c != '$' && c != '/' && c != '\0' && c != '+') {
+    while (c != '<' && c != '$' && c != '/' && c != '\0' && c != '+' && c != U_EOF) {
       TheLemma += c;
       if (c == '\\') {
         if (in.eof() || in.peek() == '\0') {
diff --git a/apertium/stream.cc b/apertium/stream.cc
index 07e3652..9120270 100644
--- a/apertium/stream.cc
+++ b/apertium/stream.cc
@@ -40,6 +40,9 @@ StreamedType Stream::get() {
     TheStreamedType.TheLexicalUnit = LexicalUnit();
     UChar32 c = TheCharacterStream.get();
     while (c != '/' && c != '$') {
+      if (c == '\0' || c == U_EOF) {
+        throw Exception::Stream::UnexpectedEndOfFile("unterminated lexical unit");
+      }
       TheStreamedType.TheLexicalUnit->TheSurfaceForm += c;
       if (c == '\\') {
         c = TheCharacterStream.get();
-- 
2.43.0


From 938752846cf5f72554b6a56a37fdf62e9a3adb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:20 +0000
Subject: [PATCH 12/22] fix: unigram tagger: pass the NUL of null-flush on

---
 apertium/unigram_tagger.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apertium/unigram_tagger.cc b/apertium/unigram_tagger.cc
index 8fb543b..7b9bb2c 100644
--- a/apertium/unigram_tagger.cc
+++ b/apertium/unigram_tagger.cc
@@ -250,7 +250,7 @@ UnigramTagger::tag(Stream &Input, std::ostream &Output)
       if (!Input.flush_())
         break;
 
-      Output << std::flush;
+      Output << '\0' << std::flush;
       continue;
     }
     if(TheFlags.getDebug())
@@ -261,7 +261,7 @@ UnigramTagger::tag(Stream &Input, std::ostream &Output)
     tag(*StreamedType_.TheLexicalUnit, Output);
 
     if (Input.flush_())
-      Output << std::flush;
+      Output << '\0' << std::flush;
   }
 }
 
-- 
2.43.0


From 28cdab6fdb97e98b200aa17890528bc39081ea71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:26 +0000
Subject: [PATCH 13/22] fix: perceptron tagger: tag and output the text before
 a NUL that directly follows a unit

---
 apertium/sentence_stream.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/apertium/sentence_stream.cc b/apertium/sentence_stream.cc
index 79b2798..5f80f82 100644
--- a/apertium/sentence_stream.cc
+++ b/apertium/sentence_stream.cc
@@ -43,18 +43,18 @@ void SentenceTagger::tag(Stream &in, std::ostream &out, bool sent_seg) {
 
     if (token.TheLexicalUnit) {
       lexical_sent.push_back(token);
-      if (isSentenceEnd(token, in, sent_seg)) {
+      if (in.flush_() || isSentenceEnd(token, in, sent_seg)) {
         tagAndPutSentence(out);
       }
     } else {
       tagAndPutSentence(out);
-      if (in.flush_()) {
-        out << '\0';
-        out.flush();
-        clearBuffers();
-      } else {
-        break;
-      }
+    }
+    if (in.flush_()) {
+      out << '\0';
+      out.flush();
+      clearBuffers();
+    } else if (!token.TheLexicalUnit) {
+      break;
     }
   }
 }
-- 
2.43.0


From 4935adf754d899dd46d61dd4aff1afe6f9f23346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:33 +0000
Subject: [PATCH 14/22] fix: tagger models: keep characters above U+007F when a
 model is loaded

---
 apertium/deserialiser.h | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/apertium/deserialiser.h b/apertium/deserialiser.h
index e0a4136..c1a8186 100644
--- a/apertium/deserialiser.h
+++ b/apertium/deserialiser.h
@@ -61,9 +61,28 @@ public:
   inline static Morpheme deserialise(std::istream &Stream_);
 };
 
+// lttoolbox's Deserialiser<UChar> returns a char, which loses every character
+// above U+007F, so read the code units as 32-bit integers (same format).
+inline UString deserialiseUString(std::istream &Stream_) {
+  UString SerialisedType_;
+  for (uint64_t n = Deserialiser<uint64_t>::deserialise(Stream_); n != 0; --n) {
+    SerialisedType_.push_back(
+        static_cast<UChar>(Deserialiser<uint32_t>::deserialise(Stream_)));
+  }
+  return SerialisedType_;
+}
+
+inline std::vector<UString> deserialiseUStrings(std::istream &Stream_) {
+  std::vector<UString> SerialisedType_;
+  for (uint64_t n = Deserialiser<uint64_t>::deserialise(Stream_); n != 0; --n) {
+    SerialisedType_.push_back(deserialiseUString(Stream_));
+  }
+  return SerialisedType_;
+}
+
 a Deserialiser<a>::deserialise(std::istream &Stream_) {
   a StreamedType_;
-  StreamedType_.TheTags = Deserialiser<std::vector<UString> >::deserialise(Stream_);
+  StreamedType_.TheTags = deserialiseUStrings(Stream_);
   StreamedType_.TheMorphemes =
       Deserialiser<std::vector<Morpheme> >::deserialise(Stream_);
   return StreamedType_;
@@ -78,21 +97,21 @@ Analysis Deserialiser<Analysis>::deserialise(std::istream &Stream_) {
 
 i Deserialiser<i>::deserialise(std::istream &Stream_) {
   i StreamedType_;
-  StreamedType_.TheTags = Deserialiser<std::vector<UString> >::deserialise(Stream_);
+  StreamedType_.TheTags = deserialiseUStrings(Stream_);
   return StreamedType_;
 }
 
 Lemma Deserialiser<Lemma>::deserialise(std::istream &Stream_) {
   Lemma StreamedType_;
-  StreamedType_.TheLemma = Deserialiser<UString>::deserialise(Stream_);
+  StreamedType_.TheLemma = deserialiseUString(Stream_);
   return StreamedType_;
 }
 
 Morpheme Deserialiser<Morpheme>::deserialise(std::istream &Stream_) {
   Morpheme SerialisedType_;
-  SerialisedType_.TheLemma = Deserialiser<UString>::deserialise(Stream_);
+  SerialisedType_.TheLemma = deserialiseUString(Stream_);
   SerialisedType_.TheTags =
-      Deserialiser<std::vector<UString> >::deserialise(Stream_);
+      deserialiseUStrings(Stream_);
   return SerialisedType_;
 }
 
-- 
2.43.0


From 6f2d104ce6ef21821aae40816ebb05b1f8efecd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:26 +0000
Subject: [PATCH 15/22] fix: copy the discard-on-ambiguity rules with the rest
 of the tagger data

---
 apertium/tagger_data.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apertium/tagger_data.cc b/apertium/tagger_data.cc
index 0eb93ec..ec83d9b 100644
--- a/apertium/tagger_data.cc
+++ b/apertium/tagger_data.cc
@@ -31,6 +31,7 @@ TaggerData::copy(TaggerData const &o)
   constants = o.constants;
   output = o.output;
   plist = o.plist;
+  discard = o.discard;
 }
 
 TaggerData::TaggerData()
-- 
2.43.0


From df86aa76090622cc9f8778b134123b2796174009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:37 +0000
Subject: [PATCH 16/22] fix: discardOnAmbiguity drops exactly the matching
 analyses, and their tags

---
 apertium/tagger_word.cc | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/apertium/tagger_word.cc b/apertium/tagger_word.cc
index cb86bdc..a19d897 100644
--- a/apertium/tagger_word.cc
+++ b/apertium/tagger_word.cc
@@ -346,29 +346,17 @@ TaggerWord::discardOnAmbiguity(UString const &tags)
   {
     map<TTag, UString>::iterator it = lexical_forms.begin(),
                               limit = lexical_forms.end();
-    set<TTag> newsettag;
-    while(it != limit)
+    while(it != limit && lexical_forms.size() > 1)
     {
       if(match(it->second, tags))
       {
-        lexical_forms.erase(it);
-        it = lexical_forms.begin();
+        this->tags.erase(it->first);
+        it = lexical_forms.erase(it);
       }
       else
       {
-        newsettag.insert(it->first);
+        it++;
       }
-
-      if(lexical_forms.size() == 1)
-      {
-        newsettag.insert(lexical_forms.begin()->first);
-        break;
-      }
-      it++;
-    }
-    if(tags.size() != newsettag.size())
-    {
-      this->tags = newsettag;
     }
   }
 }
-- 
2.43.0


From b2e23d96ffa3dc19dd23429e0ce69924f359e07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:54 +0000
Subject: [PATCH 17/22] fix: finding a similar ambiguity class does not
 overwrite the open class

---
 apertium/tagger_utils.cc | 8 ++++----
 apertium/tagger_utils.h  | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/apertium/tagger_utils.cc b/apertium/tagger_utils.cc
index 3da0415..cbf1ece 100644
--- a/apertium/tagger_utils.cc
+++ b/apertium/tagger_utils.cc
@@ -145,9 +145,9 @@ tagger_utils::add_neccesary_ambg_classes(TaggerData &td) {
   }
 }
 
-set<TTag> &
+set<TTag>
 tagger_utils::find_similar_ambiguity_class(TaggerData &td, set<TTag> &c) {
-  set<TTag> &ret = td.getOpenClass();
+  set<TTag> ret = td.getOpenClass();
   Collection &output = td.getOutput();
 
   for (int k=0; k<output.size(); k++) {
@@ -192,7 +192,7 @@ static void _warn_absent_ambiguity_class(TaggerWord &word) {
   cerr << "New ambiguity class: " << word.get_string_tags() << "\n";
 }
 
-set<TTag> &
+set<TTag>
 tagger_utils::require_similar_ambiguity_class(TaggerData &td, set<TTag> &tags, TaggerWord &word, bool warn) {
   if (td.getOutput().has_not(tags)) {
     if (warn) {
@@ -203,7 +203,7 @@ tagger_utils::require_similar_ambiguity_class(TaggerData &td, set<TTag> &tags, T
   return tags;
 }
 
-set<TTag> &
+set<TTag>
 tagger_utils::require_similar_ambiguity_class(TaggerData &td, set<TTag> &tags) {
   if (td.getOutput().has_not(tags)) {
     return find_similar_ambiguity_class(td, tags);
diff --git a/apertium/tagger_utils.h b/apertium/tagger_utils.h
index 31b6458..2c3a1df 100644
--- a/apertium/tagger_utils.h
+++ b/apertium/tagger_utils.h
@@ -92,15 +92,15 @@ void count_ambg_class_freq(Collection &output, vector<unsigned int> &acc,
 *  @param c set of tags (ambiguity class)
 *  @return a known ambiguity class
 */
-set<TTag> & find_similar_ambiguity_class(TaggerData &td, set<TTag> &c);
+set<TTag> find_similar_ambiguity_class(TaggerData &td, set<TTag> &c);
 
 /** Dies with an error message if the tags aren't in the tagger data */
 void require_ambiguity_class(TaggerData &td, set<TTag> &tags, TaggerWord &word, int nw);
 
 /** As with find_similar_ambiguity_class, but returns tags if it's already fine
  * & prints a warning if warn */
-set<TTag> & require_similar_ambiguity_class(TaggerData &td, set<TTag> &tags, TaggerWord &word, bool warn);
-set<TTag> & require_similar_ambiguity_class(TaggerData &td, set<TTag> &tags);
+set<TTag> require_similar_ambiguity_class(TaggerData &td, set<TTag> &tags, TaggerWord &word, bool warn);
+set<TTag> require_similar_ambiguity_class(TaggerData &td, set<TTag> &tags);
 
 /** Just prints a warning if warn */
 void warn_absent_ambiguity_class(TaggerData &td, set<TTag> &tags, TaggerWord &word, bool warn);
-- 
2.43.0


From a0e2b8b75110dad41c4b12f0786ae100771384e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:00 +0000
Subject: [PATCH 18/22] fix: wblank-attach forgets open word-bound blanks at
 NUL

---
 apertium/wblank-attach.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apertium/wblank-attach.cc b/apertium/wblank-attach.cc
index e379ad9..e0d5afa 100644
--- a/apertium/wblank-attach.cc
+++ b/apertium/wblank-attach.cc
@@ -78,7 +78,8 @@ int main(int argc, char* argv[]) {
 		}
 
 		if (c == '\0') {
-			in_token = in_blank = false;
+			in_token = in_blank = in_wblank = false;
+			wb_stack.clear();
 			if (!wbs.empty()) {
 				std::cerr << "tf-apertium-spread warning: Null-flush found, but had open word-bound blanks on line " << line << ":";
 				for (auto& wb : wbs) {
-- 
2.43.0


From 2db2f18004bc5169fad4e9f62a57be4d7f281348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:05 +0000
Subject: [PATCH 19/22] fix: wblank-attach keeps escapes inside word-bound
 blanks

---
 apertium/wblank-attach.cc | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/apertium/wblank-attach.cc b/apertium/wblank-attach.cc
index e0d5afa..0f1aac8 100644
--- a/apertium/wblank-attach.cc
+++ b/apertium/wblank-attach.cc
@@ -24,6 +24,14 @@
 
 void trim_wb(std::string& wb) {
 	while (!wb.empty() && (wb.back() == ';' || wb.back() == ' ')) {
+		// An escaped character belongs to the content
+		size_t e = 0;
+		while (e + 1 < wb.size() && wb[wb.size() - 2 - e] == '\\') {
+			++e;
+		}
+		if (e % 2) {
+			break;
+		}
 		wb.pop_back();
 	}
 	size_t h = 0;
@@ -50,7 +58,6 @@ int main(int argc, char* argv[]) {
 	std::vector<std::string> wbs;
 	std::vector<size_t> wb_stack;
 	std::string blank;
-	std::string unesc;
 
 	bool in_token = false;
 	bool in_blank = false;
@@ -68,7 +75,6 @@ int main(int argc, char* argv[]) {
 			if (in_blank) {
 				blank += c;
 				blank += n;
-				unesc += n;
 			}
 			else {
 				std::cout.put(c);
@@ -92,7 +98,6 @@ int main(int argc, char* argv[]) {
 				std::cerr << "tf-apertium-spread warning: Null-flush found, but had an open blank on line " << line << std::endl;
 				std::cout << blank;
 				blank.clear();
-				unesc.clear();
 			}
 			std::cout.put(c);
 			std::cout.flush();
@@ -130,7 +135,6 @@ int main(int argc, char* argv[]) {
 
 		if (in_blank) {
 			blank += c;
-			unesc += c;
 		}
 		else {
 			std::cout.put(c);
@@ -153,19 +157,24 @@ int main(int argc, char* argv[]) {
 				}
 			}
 			else if (blank[0] == '[' && blank[1] == '[') {
-				blank.assign(unesc.begin() + 2, unesc.end() - 2);
+				blank.pop_back();
+				blank.pop_back();
+				blank.erase(0, 2);
 				wb_stack.push_back(0);
 				size_t b = 0;
 				while (b < blank.size()) {
-					size_t e = blank.find(';', b);
-					unesc.assign(blank, b, e - b);
-					trim_wb(unesc);
+					size_t e = b;
+					while (e < blank.size() && blank[e] != ';') {
+						e += (blank[e] == '\\') ? 2 : 1;
+					}
+					std::string entry(blank, b, e - b);
+					trim_wb(entry);
 					// Deduplicate
-					if (!unesc.empty() && std::find(wbs.begin(), wbs.end(), unesc) == wbs.end()) {
+					if (!entry.empty() && std::find(wbs.begin(), wbs.end(), entry) == wbs.end()) {
 						++wb_stack.back();
-						wbs.push_back(unesc);
+						wbs.push_back(entry);
 					}
-					b = std::max(e, e + 1);
+					b = e + 1;
 				}
 			}
 			else {
@@ -173,7 +182,6 @@ int main(int argc, char* argv[]) {
 				std::cout << blank;
 			}
 			blank.clear();
-			unesc.clear();
 		}
 	}
 
-- 
2.43.0


From be5a4b32f234bd8e06be454b0a75abd541d24fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:36 +0000
Subject: [PATCH 20/22] fix: restore-caps keeps the entries of a word-bound
 blank that follow the c: entry

---
 apertium/caps_restorer.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/apertium/caps_restorer.cc b/apertium/caps_restorer.cc
index 4b0508f..7f9caad 100644
--- a/apertium/caps_restorer.cc
+++ b/apertium/caps_restorer.cc
@@ -173,13 +173,14 @@ CapsRestorer::read_word(InputFile& input)
   }
 
   UString src_caps = "aa/aa"_u;
+  bool has_caps = false;
   if (!cur.wblank.empty()) {
     std::vector<UString> new_pieces;
     auto pieces = StringUtils::split(cur.wblank.substr(2, cur.wblank.size()-4), "; "_u);
     for (auto& it : pieces) {
       if (StringUtils::startswith(it, "c:"_u)) {
-        src_caps = it.substr(2);
-        break;
+        if (!has_caps) src_caps = it.substr(2);
+        has_caps = true;
       } else if (delete_wblanks) {
         new_pieces.push_back(it);
       }
-- 
2.43.0


From 700b324d67b6d61109a51bfc0c509f66e40644fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:23 +0000
Subject: [PATCH 21/22] fix: restore-caps applies rules only at lexical units,
 not at a trailing blank

---
 apertium/caps_restorer.cc | 7 ++++---
 apertium/caps_restorer.h  | 3 ++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/apertium/caps_restorer.cc b/apertium/caps_restorer.cc
index 7f9caad..21e1e99 100644
--- a/apertium/caps_restorer.cc
+++ b/apertium/caps_restorer.cc
@@ -49,7 +49,7 @@ CapsRestorer::process(InputFile& input, UFILE* output)
       u_fflush(output);
       continue;
     }
-    read_word(input);
+    if (!read_word(input)) continue; // only a blank: no rule ends here
     current_state.step_optional(word_boundary);
     if (current_state.isFinal(finals)) {
       auto path_set = current_state.filterFinalsLRX(finals, alpha, escaped_chars, false, false, 0);
@@ -144,7 +144,7 @@ CapsRestorer::step(int32_t sym)
   }
 }
 
-void
+bool
 CapsRestorer::read_word(InputFile& input)
 {
   LU cur;
@@ -156,7 +156,7 @@ CapsRestorer::read_word(InputFile& input)
   }
   if (input.peek() != '^') {
     words.push_back(std::move(cur));
-    return;
+    return false;
   }
   input.get();
   read_seg(input, cur.form);
@@ -214,4 +214,5 @@ CapsRestorer::read_word(InputFile& input)
   current_state.step(word_boundary);
 
   words.push_back(std::move(cur));
+  return true;
 }
diff --git a/apertium/caps_restorer.h b/apertium/caps_restorer.h
index 857288f..1104f67 100644
--- a/apertium/caps_restorer.h
+++ b/apertium/caps_restorer.h
@@ -54,7 +54,8 @@ private:
 
   std::vector<LU> words;
 
-  void read_word(InputFile& input);
+  // returns whether there was a lexical unit after the blank
+  bool read_word(InputFile& input);
   void output_all(UFILE* output);
   void step(int32_t sym);
   void read_seg(InputFile& input, UString& str);
-- 
2.43.0


From 23405ae00410268e6aff26d64d9126bb501c2468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:22 +0000
Subject: [PATCH 22/22] fix: compile-caps lets ? and + after + or * in tags
 match tags of their own

---
 apertium/caps_compiler.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/apertium/caps_compiler.cc b/apertium/caps_compiler.cc
index 628688d..d98312c 100644
--- a/apertium/caps_compiler.cc
+++ b/apertium/caps_compiler.cc
@@ -198,13 +198,15 @@ CapsCompiler::compile_match(xmlNode* node, int32_t state)
   }
   auto tag_list = StringUtils::split_escaped(tags, '.');
   for (auto& it : tag_list) {
+    // new states, so that the loop of an earlier + or * is not reused
     if (it == "+"_u) {
-      state = add_loop(any_tag, state);
+      state = trans.insertNewSingleTransduction(alpha(any_tag, 0), state);
+      trans.linkStates(state, state, alpha(any_tag, 0));
     } else if (it == "*"_u) {
       state = trans.insertNewSingleTransduction(0, state);
       trans.linkStates(state, state, alpha(any_tag, 0));
     } else if (it == "?"_u) {
-      state = trans.insertSingleTransduction(alpha(any_tag, 0), state);
+      state = trans.insertNewSingleTransduction(alpha(any_tag, 0), state);
     } else if (it.empty()) {
       continue;
     } else {
-- 
2.43.0

