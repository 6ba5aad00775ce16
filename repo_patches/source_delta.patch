From 978516c91dfb4ee3fc01fc945cb05e634c578842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 01/63] fix: initialise the sentence segmentation and
 skip-errors tagger flags

---
 apertium/tagger_flags.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/tagger_flags.cc b/apertium/tagger_flags.cc
index 3ef4fa5..396e4ba 100644
--- a/apertium/tagger_flags.cc
+++ b/apertium/tagger_flags.cc
@@ -18,7 +18,7 @@
 namespace Apertium {
 TaggerFlags::TaggerFlags()
     : Debug(false), First(false), Mark(false), ShowSuperficial(false),
-      NullFlush(false) {}
+      SentSeg(false), SkipErrors(false), NullFlush(false) {}
 
 bool TaggerFlags::getDebug() { return Debug; }
 
-- 
2.43.0


From e2aa157b0c02f020b6e26f487487a7d64fc3e5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 02/63] fix: unigram tagger answers each NUL-terminated request
 with a NUL

---
 apertium/unigram_tagger.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apertium/unigram_tagger.cc b/apertium/unigram_tagger.cc
index 8fb543b..7b9bb2c 100644
--- a/apertium/unigram_tagger.cc
+++ b/apertium/unigram_tagger.cc
@@ -250,7 +250,7 @@ UnigramTagger::tag(Stream &Input, std::ostream &Output)
       if (!Input.flush_())
         break;
 
-      Output << std::flush;
+      Output << '\0' << std::flush;
       continue;
     }
     if(TheFlags.getDebug())
@@ -261,7 +261,7 @@ UnigramTagger::tag(Stream &Input, std::ostream &Output)
     tag(*StreamedType_.TheLexicalUnit, Output);
 
     if (Input.flush_())
-      Output << std::flush;
+      Output << '\0' << std::flush;
   }
 }
 
-- 
2.43.0


From 0bbb585e8be6acd7c7d102d972cac0668cdf85bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 03/63] fix: sentence taggers end the request at a NUL that
 follows a lexical unit directly

---
 apertium/sentence_stream.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/apertium/sentence_stream.cc b/apertium/sentence_stream.cc
index 79b2798..19c8748 100644
--- a/apertium/sentence_stream.cc
+++ b/apertium/sentence_stream.cc
@@ -43,19 +43,20 @@ void SentenceTagger::tag(Stream &in, std::ostream &out, bool sent_seg) {
 
     if (token.TheLexicalUnit) {
       lexical_sent.push_back(token);
-      if (isSentenceEnd(token, in, sent_seg)) {
+      if (in.flush_() || isSentenceEnd(token, in, sent_seg)) {
         tagAndPutSentence(out);
       }
     } else {
       tagAndPutSentence(out);
-      if (in.flush_()) {
-        out << '\0';
-        out.flush();
-        clearBuffers();
-      } else {
+      if (!in.flush_()) {
         break;
       }
     }
+    if (in.flush_()) {
+      out << '\0';
+      out.flush();
+      clearBuffers();
+    }
   }
 }
 
-- 
2.43.0


From 398bc75b2bc11438a4bc73366d2e9f1a4db0b92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 04/63] fix: LSW tagger keeps each request's blanks in its own
 answer and starts every request afresh

---
 apertium/lswpost.cc | 58 ++++++++++++++++++++++++---------------------
 1 file changed, 31 insertions(+), 27 deletions(-)

diff --git a/apertium/lswpost.cc b/apertium/lswpost.cc
index d93c9bd..4192fe2 100644
--- a/apertium/lswpost.cc
+++ b/apertium/lswpost.cc
@@ -345,23 +345,40 @@ LSWPoST::tagger(MorphoStream &morpho_stream, UFILE* Output) {
 
   warn_absent_ambiguity_class(tdlsw, tags_left, *word_left, TheFlags.getDebug());
   word_mid = morpho_stream.get_next_word(); // word mid
-  word_mid->set_show_sf(TheFlags.getShowSuperficial());
-  tags_mid = word_mid->get_tags();          // tags mid
-
-  warn_absent_ambiguity_class(tdlsw, tags_mid, *word_mid, TheFlags.getDebug());
-  if (morpho_stream.getEndOfFile()) {
-    delete word_left;
-    delete word_mid;
-    return;
-  }
-  word_right = morpho_stream.get_next_word(); // word_right
-  word_right->set_show_sf(TheFlags.getShowSuperficial());
 
   UString micad;
 
-  while (word_right) {
-    tags_right = word_right->get_tags();
-    warn_absent_ambiguity_class(tdlsw, tags_right, *word_right, TheFlags.getDebug());
+  while (word_mid) {
+    word_mid->set_show_sf(TheFlags.getShowSuperficial());
+    tags_mid = word_mid->get_tags();          // tags mid
+    warn_absent_ambiguity_class(tdlsw, tags_mid, *word_mid, TheFlags.getDebug());
+
+    if (morpho_stream.getEndOfFile()) {
+      // word_mid only holds what follows the last word of the segment
+      TTag tag_end = *tags_mid.begin();
+      micad = word_mid->get_lexical_form(tag_end, (tdlsw.getTagIndex())["TAG_kEOF"_u]);
+      write(micad, Output);
+      if (TheFlags.getNullFlush()) {
+        u_fputc('\0', Output);
+      }
+      u_fflush(Output);
+      morpho_stream.setEndOfFile(false);
+
+      // start the next segment as if it were the first one
+      delete word_left;
+      word_left = new TaggerWord();
+      word_left->add_tag(eos, "sent"_u, tdlsw.getPreferRules());
+      tags_left = word_left->get_tags();
+      delete word_mid;
+      word_mid = morpho_stream.get_next_word();
+      continue;
+    }
+
+    word_right = morpho_stream.get_next_word(); // word_right
+    tags_right.clear();
+    if (word_right != NULL) {
+      tags_right = word_right->get_tags();
+    }
 
     set<TTag> *tags_avail;
     tags_avail = &tags_mid;
@@ -382,24 +399,11 @@ LSWPoST::tagger(MorphoStream &morpho_stream, UFILE* Output) {
 
     micad = word_mid->get_lexical_form(tag_max, (tdlsw.getTagIndex())["TAG_kEOF"_u]);
     write(micad, Output);
-    if (morpho_stream.getEndOfFile()) {
-      if (TheFlags.getNullFlush()) {
-        u_fputc('\0', Output);
-      }
-      u_fflush(Output);
-      morpho_stream.setEndOfFile(false);
-    }
 
     delete word_left;
     word_left = word_mid;
     tags_left = tags_mid;
     word_mid = word_right;
-    tags_mid = tags_right;
-    word_right = morpho_stream.get_next_word();
-    if (word_right != NULL) {
-      word_right->set_show_sf(TheFlags.getShowSuperficial());
-    }
   }
   delete word_left;
-  delete word_mid;
 }
-- 
2.43.0


From 2d19cc8e308f59a22a75077ceb7068f725ae56a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:33 +0000
Subject: [PATCH 05/63] fix: word-bound blanks kept with rule variables do not
 reach the next request

---
 apertium/postchunk.cc | 1 +
 apertium/transfer.cc  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index 5189c7b..043a9ed 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -539,6 +539,7 @@ Postchunk::postchunk_wrapper_null_flush(InputFile& in, UFILE* out)
     u_fputc('\0', out);
     u_fflush(out);
     variables = variable_defaults;
+    var_out_wblank.clear();
   }
 
   internal_null_flush = false;
diff --git a/apertium/transfer.cc b/apertium/transfer.cc
index 3b8a585..1872591 100644
--- a/apertium/transfer.cc
+++ b/apertium/transfer.cc
@@ -908,6 +908,7 @@ Transfer::tmp_clear()
   tmpblank.clear();
   tmpword.clear();
   variables = variable_defaults;
+  var_out_wblank.clear();
 }
 
 void
-- 
2.43.0


From 06f33657b85797716ca9c8c7b6885abdb20bc634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:22 +0000
Subject: [PATCH 06/63] fix: transfer stages stop when the input ends inside a
 blank or chunk

---
 apertium/interchunk.cc    | 7 +++++++
 apertium/postchunk.cc     | 7 +++++++
 apertium/transfer.cc      | 4 ++--
 apertium/transfer_mult.cc | 4 ++++
 4 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/apertium/interchunk.cc b/apertium/interchunk.cc
index dcc1bba..c484950 100644
--- a/apertium/interchunk.cc
+++ b/apertium/interchunk.cc
@@ -373,6 +373,7 @@ Interchunk::readToken(InputFile& in)
     int val = in.get();
     if(in.eof() || (internal_null_flush && val == 0))
     {
+      inword = false;
       return input_buffer.add(TransferToken(content, tt_eof));
     }
     if(val == '\\')
@@ -389,6 +390,9 @@ Interchunk::readToken(InputFile& in)
         if(val2 == '\\') {
           content += '\\';
           content += in.get();
+        } else if(in.eof() || (internal_null_flush && val2 == 0)) {
+          inword = false;
+          return input_buffer.add(TransferToken(content, tt_eof));
         } else if(val2 == ']') {
           content += ']';
           break;
@@ -404,6 +408,9 @@ Interchunk::readToken(InputFile& in)
         if(val2 == '\\') {
           content += '\\';
           content += in.get();
+        } else if(in.eof() || (internal_null_flush && val2 == 0)) {
+          inword = false;
+          return input_buffer.add(TransferToken(content, tt_eof));
         } else if(val2 == '}') {
           UChar32 val3 = in.peek();
 
diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index 043a9ed..7959abf 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -467,6 +467,7 @@ Postchunk::readToken(InputFile& in)
     UChar32 val = in.get();
     if(in.eof() || (internal_null_flush && val == 0))
     {
+      inword = false;
       return input_buffer.add(TransferToken(content, tt_eof));
     }
     if(val == '\\')
@@ -483,6 +484,9 @@ Postchunk::readToken(InputFile& in)
         if(val2 == '\\') {
           content += '\\';
           content += in.get();
+        } else if(in.eof() || (internal_null_flush && val2 == 0)) {
+          inword = false;
+          return input_buffer.add(TransferToken(content, tt_eof));
         } else if(val2 == ']') {
           content += ']';
           break;
@@ -499,6 +503,9 @@ Postchunk::readToken(InputFile& in)
         if(val2 == '\\') {
           content += '\\';
           content += in.get();
+        } else if(in.eof() || (internal_null_flush && val2 == 0)) {
+          inword = false;
+          return input_buffer.add(TransferToken(content, tt_eof));
         } else if(val2 == '}') {
           UChar32 val3 = in.peek();
           content += '}';
diff --git a/apertium/transfer.cc b/apertium/transfer.cc
index 1872591..b98cf48 100644
--- a/apertium/transfer.cc
+++ b/apertium/transfer.cc
@@ -822,10 +822,10 @@ Transfer::readToken(InputFile& in)
           in_wblank = false;
           return input_buffer.add(TransferToken(content, tt_word));
         }
-        else if(val3 == '\0' && null_flush)
+        else if(in.eof() || (val3 == '\0' && internal_null_flush))
         {
           in_wblank = false;
-          u_fflush(output);
+          return input_buffer.add(TransferToken(content, tt_eof));
         }
         else
         {
diff --git a/apertium/transfer_mult.cc b/apertium/transfer_mult.cc
index b28c4f0..27ac5d8 100644
--- a/apertium/transfer_mult.cc
+++ b/apertium/transfer_mult.cc
@@ -181,6 +181,10 @@ TransferMult::readToken(InputFile& in)
 	  content += ']';
 	  break;
 	}
+	else if(in.eof())
+	{
+	  return input_buffer.add(TransferToken(content, tt_eof));
+	}
 	else
 	{
 	  content += val2;
-- 
2.43.0


From aa5523c112365ffc23aeb7fda39ff974f5f5e21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:22 +0000
Subject: [PATCH 07/63] fix: pretransfer stops when the input ends inside a
 surface form

---
 apertium/pretransfer.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/apertium/pretransfer.cc b/apertium/pretransfer.cc
index deb1be7..e7938c3 100644
--- a/apertium/pretransfer.cc
+++ b/apertium/pretransfer.cc
@@ -79,6 +79,11 @@ void procWord(InputFile& input, UFILE* output, bool surface_forms, bool compound
   if(surface_forms)
   {
     while((mychar = input.get()) != '/') {
+      if(input.eof())
+      {
+        std::cerr << "ERROR: Unexpected EOF" << std::endl;
+        exit(EXIT_FAILURE);
+      }
       if (mychar == '\\') input.get();
     }
   }
-- 
2.43.0


From 966a15424b1bb8155e081876eaddf9d1bdb68ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:22 +0000
Subject: [PATCH 08/63] fix: stream taggers stop when the input ends inside a
 lexical unit

---
 apertium/morpheme.cc | 6 ++++++
 apertium/stream.cc   | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/apertium/morpheme.cc b/apertium/morpheme.cc
index 7a78c36..6892f56 100644
--- a/apertium/morpheme.cc
+++ b/apertium/morpheme.cc
@@ -67,6 +67,9 @@ Morpheme::read(InputFile& in)
 {
   UChar32 c = in.get();
   while (c != '<' && c != '$' && c != '/' && c != '\0') {
+    if (in.eof()) {
+      throw Exception::Stream::UnexpectedEndOfFile("unterminated lexical unit");
+    }
     TheLemma += c;
     if (c == '\\') {
       if (in.eof() || in.peek() == '\0') {
@@ -92,6 +95,9 @@ Morpheme::read(InputFile& in)
   }
   if (c == '#') {
     while (c != '<' && c != '$' && c != '/' && c != '\0' && c != '+') {
+      if (in.eof()) {
+        throw Exception::Stream::UnexpectedEndOfFile("unterminated lexical unit");
+      }
       TheLemma += c;
       if (c == '\\') {
         if (in.eof() || in.peek() == '\0') {
diff --git a/apertium/stream.cc b/apertium/stream.cc
index 07e3652..20ea959 100644
--- a/apertium/stream.cc
+++ b/apertium/stream.cc
@@ -40,6 +40,9 @@ StreamedType Stream::get() {
     TheStreamedType.TheLexicalUnit = LexicalUnit();
     UChar32 c = TheCharacterStream.get();
     while (c != '/' && c != '$') {
+      if (TheCharacterStream.eof()) {
+        throw Exception::Stream::UnexpectedEndOfFile("unterminated lexical unit");
+      }
       TheStreamedType.TheLexicalUnit->TheSurfaceForm += c;
       if (c == '\\') {
         c = TheCharacterStream.get();
-- 
2.43.0


From 24354c9563e5cb321889ff0fa848a5f563410758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:15 +0000
Subject: [PATCH 09/63] fix: wblank tools do not emit a byte for the end of
 input after a backslash

---
 apertium/wblank-attach.cc | 2 +-
 apertium/wblank-detach.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/apertium/wblank-attach.cc b/apertium/wblank-attach.cc
index e379ad9..7e063e5 100644
--- a/apertium/wblank-attach.cc
+++ b/apertium/wblank-attach.cc
@@ -63,7 +63,7 @@ int main(int argc, char* argv[]) {
 			++line;
 		}
 
-		if (c == '\\' && std::cin.peek()) {
+		if (c == '\\' && std::cin.peek() > 0) {
 			auto n = static_cast<char>(std::cin.get());
 			if (in_blank) {
 				blank += c;
diff --git a/apertium/wblank-detach.cc b/apertium/wblank-detach.cc
index ab22d5a..fbb1bef 100644
--- a/apertium/wblank-detach.cc
+++ b/apertium/wblank-detach.cc
@@ -43,7 +43,7 @@ int main(int argc, char* argv[]) {
 
 	char c = 0;
 	while (std::cin.get(c)) {
-		if (c == '\\' && std::cin.peek()) {
+		if (c == '\\' && std::cin.peek() > 0) {
 			auto n = static_cast<char>(std::cin.get());
 			if (in_blank) {
 				blank += c;
-- 
2.43.0


From f0443fb57edc3dc7815266fb29b3f55e8dc1e942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:15 +0000
Subject: [PATCH 10/63] fix: wblank-attach forgets unclosed word-bound blanks
 at a null flush

---
 apertium/wblank-attach.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apertium/wblank-attach.cc b/apertium/wblank-attach.cc
index 7e063e5..a03dfcc 100644
--- a/apertium/wblank-attach.cc
+++ b/apertium/wblank-attach.cc
@@ -78,7 +78,8 @@ int main(int argc, char* argv[]) {
 		}
 
 		if (c == '\0') {
-			in_token = in_blank = false;
+			in_token = in_blank = in_wblank = false;
+			wb_stack.clear();
 			if (!wbs.empty()) {
 				std::cerr << "tf-apertium-spread warning: Null-flush found, but had open word-bound blanks on line " << line << ":";
 				for (auto& wb : wbs) {
-- 
2.43.0


From 7f659029581bf8066518af2e9a303c1c08fb226e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:32 +0000
Subject: [PATCH 11/63] fix: tagger training reports a model it could not write

---
 apertium/tagger.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/apertium/tagger.cc b/apertium/tagger.cc
index 8022c0f..0b1b4af 100644
--- a/apertium/tagger.cc
+++ b/apertium/tagger.cc
@@ -637,6 +637,13 @@ void apertium_tagger::s_StreamTaggerTrainer(
                    Serialised_basic_Tagger);
 
   StreamTaggerTrainer_.serialise(Serialised_basic_Tagger);
+
+  Serialised_basic_Tagger.close();
+  if (Serialised_basic_Tagger.fail()) {
+    std::stringstream what_;
+    what_ << "can't write SERIALISED_TAGGER file \"" << argv[optind] << '"';
+    throw Exception::Shell::FcloseError(what_);
+  }
 }
 
 void apertium_tagger::g_FILE_Tagger(FILE_Tagger &FILE_Tagger_) {
-- 
2.43.0


From 97fbca105bfe1a86baa469ab6f8ce7ecfc580799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:32 +0000
Subject: [PATCH 12/63] fix: preprocess-transfer reports a rule file it could
 not write

---
 apertium/trx_reader.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/apertium/trx_reader.cc b/apertium/trx_reader.cc
index 81ba0f8..5a8d8eb 100644
--- a/apertium/trx_reader.cc
+++ b/apertium/trx_reader.cc
@@ -236,7 +236,11 @@ TRXReader::write(string const &filename)
 
   td.write(out);
 
-  fclose(out);
+  bool failed = (ferror(out) != 0);
+  if (fclose(out) != 0 || failed) {
+    cerr << "Error: cannot write '" << filename << "'" << endl;
+    exit(EXIT_FAILURE);
+  }
 }
 
 void
-- 
2.43.0


From c4362d58fd83a196c53b2ad1709c95889cc3fdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:32 +0000
Subject: [PATCH 13/63] fix: compile-caps reports a rule file it could not
 write

---
 apertium/apertium_compile_caps.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/apertium/apertium_compile_caps.cc b/apertium/apertium_compile_caps.cc
index 04b8681..bc9c3a5 100644
--- a/apertium/apertium_compile_caps.cc
+++ b/apertium/apertium_compile_caps.cc
@@ -19,6 +19,8 @@
 #include <lttoolbox/cli.h>
 #include <lttoolbox/file_utils.h>
 #include <lttoolbox/lt_locale.h>
+#include <cstdio>
+#include <iostream>
 
 int main(int argc, char** argv)
 {
@@ -33,6 +35,10 @@ int main(int argc, char** argv)
   cc.parse(cli.get_files()[0]);
   FILE* output = openOutBinFile(cli.get_files()[1]);
   cc.write(output);
-  fclose(output);
+  bool failed = (ferror(output) != 0);
+  if (fclose(output) != 0 || failed) {
+    std::cerr << "Error: cannot write '" << cli.get_files()[1] << "'" << std::endl;
+    return EXIT_FAILURE;
+  }
   return EXIT_SUCCESS;
 }
-- 
2.43.0


From 8dd5efe86d0b61791df42385ba71927ad12801d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:57 +0000
Subject: [PATCH 14/63] fix: perceptron training does not use a weight it has
 erased

---
 apertium/feature_vec_averager.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/apertium/feature_vec_averager.cc b/apertium/feature_vec_averager.cc
index a45025d..6798146 100644
--- a/apertium/feature_vec_averager.cc
+++ b/apertium/feature_vec_averager.cc
@@ -40,13 +40,14 @@ void
 FeatureVecAverager::average() {
   FeatureVec::Map::iterator weights_it;
   for (weights_it = weights.data.begin();
-       weights_it != weights.data.end(); weights_it++) {
+       weights_it != weights.data.end(); ) {
     const FeatureKey &fk = weights_it->first;
     updateTotal(fk);
     if (totals[fk] == 0) {
-      weights.data.erase(weights_it);
+      weights_it = weights.data.erase(weights_it);
     } else {
       weights_it->second = totals[fk] / iterations;
+      ++weights_it;
     }
   }
 }
-- 
2.43.0


From 5fe30ffacd583a7d8047b7ca567350f3e1ba4263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:49 +0000
Subject: [PATCH 15/63] fix: a rejected rule does not write the blanks that
 stay in the input

---
 apertium/postchunk.cc     |  7 +++++++
 apertium/postchunk.h      |  1 +
 apertium/transfer_base.cc | 13 ++++++++++++-
 apertium/transfer_base.h  |  2 ++
 4 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index 7959abf..680f752 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -686,6 +686,13 @@ Postchunk::postchunk(InputFile& in, UFILE* out)
   }
 }
 
+size_t
+Postchunk::blanksAfter(size_t words, size_t blanks)
+{
+  // all the blanks are inside the one chunk
+  return (words > 0) ? 0 : blanks;
+}
+
 int
 Postchunk::applyRule()
 {
diff --git a/apertium/postchunk.h b/apertium/postchunk.h
index 3dda423..809d800 100644
--- a/apertium/postchunk.h
+++ b/apertium/postchunk.h
@@ -68,6 +68,7 @@ private:
   static UString pseudolemma(UString const &chunk);
   static UString wordzero(UString const &chunk);
   bool checkIndex(xmlNode *element, int index, int limit);
+  size_t blanksAfter(size_t words, size_t blanks);
   void postchunk_wrapper_null_flush(InputFile& in, UFILE* out);
 
 public:
diff --git a/apertium/transfer_base.cc b/apertium/transfer_base.cc
index a5403ef..566017a 100644
--- a/apertium/transfer_base.cc
+++ b/apertium/transfer_base.cc
@@ -249,10 +249,18 @@ TransferBase::evalString(xmlNode* element)
   return evalCachedString(element);
 }
 
+size_t
+TransferBase::blanksAfter(size_t words, size_t blanks)
+{
+  size_t consumed = (words > 0) ? words - 1 : 0;
+  return (blanks > consumed) ? blanks - consumed : 0;
+}
+
 int
 TransferBase::processRule(xmlNode* localroot)
 {
   int words_to_consume = -1;
+  size_t blanks = blank_queue.size();
   // iterating over the <action> tag
   for (auto i : children(localroot)) {
     words_to_consume = processInstruction(i);
@@ -262,9 +270,12 @@ TransferBase::processRule(xmlNode* localroot)
       break;
     }
   }
+  // a rejected rule leaves the blanks after the words it consumes in
+  // the input, where they will be read again
+  size_t unread = (words_to_consume < 0) ? 0 : blanksAfter(words_to_consume, blanks);
   // flush remaining non-space blanks
   while (!blank_queue.empty()) {
-    if (blank_queue.front() != " "_u) {
+    if (blank_queue.size() > unread && blank_queue.front() != " "_u) {
       write(blank_queue.front(), output);
     }
     blank_queue.pop();
diff --git a/apertium/transfer_base.h b/apertium/transfer_base.h
index d0a55a9..f5e67ad 100644
--- a/apertium/transfer_base.h
+++ b/apertium/transfer_base.h
@@ -80,6 +80,8 @@ protected:
   virtual UString processMlu(xmlNode* element) = 0;
   virtual UString processChunk(xmlNode* element) = 0;
 
+  // how many of the blanks among the words of a rejected rule stay in the input
+  virtual size_t blanksAfter(size_t words, size_t blanks);
   int processRule(xmlNode* localroot);
   int processInstruction(xmlNode* localroot);
   int processRejectCurrentRule(xmlNode* localroot);
-- 
2.43.0


From d1b4d3da41a91cc335eebe53d882be9f82b90911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:02 +0000
Subject: [PATCH 16/63] fix: postchunk finds the end of a word-bound blank that
 holds an escaped bracket

---
 apertium/postchunk.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index 680f752..fd36d75 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -1080,7 +1080,7 @@ Postchunk::splitWordsAndBlanks(UString const &chunk, vector<UString *> &words,
             ref += '\\';
             ref += chunk[++i];
           }
-          else if(chunk[i] == ']' && chunk[i-1] == ']')
+          else if(chunk[i] == ']' && chunk[i-1] == ']' && chunk[i+1] == '^')
           {
             ref += chunk[i];
             i++; //i->"^"_u
-- 
2.43.0


From 1966249fde592e57ed2b74c020fa0ff4c5a01755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:13 +0000
Subject: [PATCH 17/63] fix: wblank-attach keeps the escapes of a word-bound
 blank

---
 apertium/wblank-attach.cc | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/apertium/wblank-attach.cc b/apertium/wblank-attach.cc
index a03dfcc..570dfd8 100644
--- a/apertium/wblank-attach.cc
+++ b/apertium/wblank-attach.cc
@@ -50,7 +50,7 @@ int main(int argc, char* argv[]) {
 	std::vector<std::string> wbs;
 	std::vector<size_t> wb_stack;
 	std::string blank;
-	std::string unesc;
+	std::string wb;
 
 	bool in_token = false;
 	bool in_blank = false;
@@ -68,7 +68,6 @@ int main(int argc, char* argv[]) {
 			if (in_blank) {
 				blank += c;
 				blank += n;
-				unesc += n;
 			}
 			else {
 				std::cout.put(c);
@@ -92,7 +91,6 @@ int main(int argc, char* argv[]) {
 				std::cerr << "tf-apertium-spread warning: Null-flush found, but had an open blank on line " << line << std::endl;
 				std::cout << blank;
 				blank.clear();
-				unesc.clear();
 			}
 			std::cout.put(c);
 			std::cout.flush();
@@ -130,7 +128,6 @@ int main(int argc, char* argv[]) {
 
 		if (in_blank) {
 			blank += c;
-			unesc += c;
 		}
 		else {
 			std::cout.put(c);
@@ -153,17 +150,17 @@ int main(int argc, char* argv[]) {
 				}
 			}
 			else if (blank[0] == '[' && blank[1] == '[') {
-				blank.assign(unesc.begin() + 2, unesc.end() - 2);
+				blank = blank.substr(2, blank.size() - 4);
 				wb_stack.push_back(0);
 				size_t b = 0;
 				while (b < blank.size()) {
 					size_t e = blank.find(';', b);
-					unesc.assign(blank, b, e - b);
-					trim_wb(unesc);
+					wb.assign(blank, b, e - b);
+					trim_wb(wb);
 					// Deduplicate
-					if (!unesc.empty() && std::find(wbs.begin(), wbs.end(), unesc) == wbs.end()) {
+					if (!wb.empty() && std::find(wbs.begin(), wbs.end(), wb) == wbs.end()) {
 						++wb_stack.back();
-						wbs.push_back(unesc);
+						wbs.push_back(wb);
 					}
 					b = std::max(e, e + 1);
 				}
@@ -173,7 +170,6 @@ int main(int argc, char* argv[]) {
 				std::cout << blank;
 			}
 			blank.clear();
-			unesc.clear();
 		}
 	}
 
-- 
2.43.0


From 9fd462d735c621ae21b16b8a8c0a74456d1fb6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:37 +0000
Subject: [PATCH 18/63] fix: transfer -n keeps word-bound blanks outside the
 lexical units

---
 apertium/transfer.cc | 27 +++++++++++++++++++++++++--
 apertium/transfer.h  |  1 +
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/apertium/transfer.cc b/apertium/transfer.cc
index b98cf48..87edb96 100644
--- a/apertium/transfer.cc
+++ b/apertium/transfer.cc
@@ -1146,7 +1146,9 @@ Transfer::transfer(InputFile& in, UFILE* out)
           }
           else
           {
-            tr = pair<UString, int>(*tmpword[0], 0);
+            UString cur = *tmpword[0];
+            tr_wblank = takeWblank(cur);
+            tr = pair<UString, int>(cur, 0);
           }
 
 	  if(tr.first.size() != 0) {
@@ -1237,6 +1239,25 @@ Transfer::transfer(InputFile& in, UFILE* out)
   }
 }
 
+// takes a leading word-bound blank, and the '^' after it, off word_str
+UString
+Transfer::takeWblank(UString& word_str)
+{
+  UString wblank;
+  if (word_str.size() > 1 && word_str[0] == '[' && word_str[1] == '[') {
+    size_t i = 2;
+    while (i < word_str.size() &&
+           !(word_str[i] == '^' && word_str[i-1] == ']' && word_str[i-2] == ']')) {
+      i += (word_str[i] == '\\') ? 2 : 1;
+    }
+    if (i < word_str.size()) {
+      wblank = word_str.substr(0, i);
+      word_str.erase(0, i + 1);
+    }
+  }
+  return wblank;
+}
+
 int
 Transfer::applyRule()
 {
@@ -1346,7 +1367,9 @@ Transfer::applyRule()
     }
     else // neither useBilingual nor preBilingual (sl==tl)
     {
-      word[i] = new TransferWord(*tmpword[i], *tmpword[i], ""_u, ""_u, false);
+      UString cur = *tmpword[i];
+      UString wblank = takeWblank(cur);
+      word[i] = new TransferWord(cur, cur, ""_u, wblank, false);
     }
   }
 
diff --git a/apertium/transfer.h b/apertium/transfer.h
index 7cc90d8..cfd7c7f 100644
--- a/apertium/transfer.h
+++ b/apertium/transfer.h
@@ -69,6 +69,7 @@ private:
   UString readBlank(InputFile& in);
   UString readUntil(InputFile& in, int const symbol) const;
   void applyWord(UString const &word_str);
+  UString takeWblank(UString& word_str);
   int applyRule();
   TransferToken & readToken(InputFile& in);
   bool checkIndex(xmlNode *element, int index, int limit);
-- 
2.43.0


From 0bd8189f3e1b0f469922398c34f962baef1cac29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:04 +0000
Subject: [PATCH 19/63] fix: cleanstream -b prints word-bound blanks whole

---
 apertium/apertium_cleanstream.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/apertium/apertium_cleanstream.cc b/apertium/apertium_cleanstream.cc
index 444bfb8..07a4d72 100644
--- a/apertium/apertium_cleanstream.cc
+++ b/apertium/apertium_cleanstream.cc
@@ -87,7 +87,12 @@ main (int argc, char** argv)
       buf += c;
     } else if(!intoken && c == '[') {
       u_fputc(ws, output);
-      blanktmp = input.readBlock('[', ']');
+      if (input.peek() == '[') {
+        input.get();
+        blanktmp = input.finishWBlank();
+      } else {
+        blanktmp = input.readBlock('[', ']');
+      }
       if(keepblank) {
         write(blanktmp, output);
       }
-- 
2.43.0


From 82ed118eca77797e7c9f7704b93dcf451a743abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:17 +0000
Subject: [PATCH 20/63] fix: sentence segmentation keeps the last blank of the
 input

---
 apertium/stream.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/apertium/stream.cc b/apertium/stream.cc
index 20ea959..48710ea 100644
--- a/apertium/stream.cc
+++ b/apertium/stream.cc
@@ -82,12 +82,22 @@ StreamedType Stream::get() {
 }
 
 bool Stream::peekIsBlank() {
+  // only look at a second character when the first one is a newline:
+  // it may not have arrived yet
+  if (TheCharacterStream.peek() != '\n') {
+    return false;
+  }
+
   const UChar32 newline1 = TheCharacterStream.get();
   const UChar32 newline2 = TheCharacterStream.get();
 
   // somewhat dangerous to unget twice
   // but InputFile does have a 3 char buffer
-  TheCharacterStream.unget(newline2);
+  // (the end of the input is not put back: InputFile would then take
+  // the newline in front of it to be the end of the input too)
+  if (newline2 != U_EOF) {
+    TheCharacterStream.unget(newline2);
+  }
   TheCharacterStream.unget(newline1);
 
   return newline1 == '\n' && newline2 == '\n';
-- 
2.43.0


From dbc291e631f8de6f4d88d474eb3c0aee8dc7b448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:05 +0000
Subject: [PATCH 21/63] fix: lemma and tag attributes of transfer rules keep
 escaped characters

---
 apertium/transfer_data.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/apertium/transfer_data.cc b/apertium/transfer_data.cc
index bcf8649..11d125a 100644
--- a/apertium/transfer_data.cc
+++ b/apertium/transfer_data.cc
@@ -44,11 +44,14 @@ TransferData::destroy()
 TransferData::TransferData()
 {
   // adding fixed attr_items
-  attr_items["lem"_u] = "^(([^<]|\"\\<\")+)"_u;
-  attr_items["lemq"_u] = "\\#[- _][^<]+"_u;
-  attr_items["lemh"_u] = "^(([^<#]|\"\\<\"|\"\\#\")+)"_u;
+  // an escaped < or # is part of the lemma
+  // (ICU wants to know how far it may look back for backslashes)
+  const UString unescaped = "(?<!(?:^|[^\\\\])(?:\\\\\\\\){0,8}\\\\)"_u;
+  attr_items["lem"_u] = "^(([^<\\\\]|\\\\.)+)"_u;
+  attr_items["lemq"_u] = unescaped + "\\#[- _]([^<\\\\]|\\\\.)+"_u;
+  attr_items["lemh"_u] = "^(([^<#\\\\]|\\\\.)+)"_u;
   attr_items["whole"_u] = "(.+)"_u;
-  attr_items["tags"_u] = "((<[^>]+>)+)"_u;
+  attr_items["tags"_u] = unescaped + "((<[^>]+>)+)"_u;
   attr_items["chname"_u] = "(\\{([^/]+)\\/)"_u; // includes delimiters { and / !!!
   attr_items["chcontent"_u] = "(\\{.+)"_u;
   attr_items["content"_u] = "(\\{.+)"_u;
-- 
2.43.0


From a9b886e67643ad1dff9647067eb872c03a9f8c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:59 +0000
Subject: [PATCH 22/63] fix: postchunk does not write the blank after a
 rejected chunk into the next request

---
 apertium/postchunk.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index fd36d75..6a600fa 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -675,6 +675,7 @@ Postchunk::postchunk(InputFile& in, UFILE* out)
       }
       else {
         write(current.getContent(), output);
+        tmpblank.clear();
         return;
       }
       break;
-- 
2.43.0


From c0d5a38324f2a4d3ceee5ee4bd263b548da07732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:39 +0000
Subject: [PATCH 23/63] fix: pretransfer keeps escaped characters inside
 lexical units

---
 apertium/pretransfer.cc | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/apertium/pretransfer.cc b/apertium/pretransfer.cc
index e7938c3..fc1a8f2 100644
--- a/apertium/pretransfer.cc
+++ b/apertium/pretransfer.cc
@@ -96,6 +96,27 @@ void procWord(InputFile& input, UFILE* output, bool surface_forms, bool compound
       exit(EXIT_FAILURE);
     }
 
+    if(mychar == '\\')
+    {
+      int escaped = input.get();
+      if(input.eof())
+      {
+        std::cerr << "ERROR: Unexpected EOF" << std::endl;
+        exit(EXIT_FAILURE);
+      }
+      if(buffer_mode)
+      {
+        buffer += mychar;
+        buffer += escaped;
+      }
+      else
+      {
+        u_fputc(mychar, output);
+        u_fputc(escaped, output);
+      }
+      continue;
+    }
+
     switch(mychar)
     {
     case '<':
-- 
2.43.0


From 497f6911849a48591b70ea21eeae2f77e963c26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:38 +0000
Subject: [PATCH 24/63] fix: the feature template reader steps past
 <beam-width>

---
 apertium/mtx_reader.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apertium/mtx_reader.cc b/apertium/mtx_reader.cc
index ea7e597..97ec055 100644
--- a/apertium/mtx_reader.cc
+++ b/apertium/mtx_reader.cc
@@ -1163,6 +1163,7 @@ MTXReader::parse()
     std::istringstream val_ss(attrib_str("val"_u));
     val_ss >> val;
     spec.beam_width = val;
+    stepPastSelfClosingTag("beam-width"_u);
   } else {
     spec.beam_width = 4;
   }
-- 
2.43.0


From c28a32ade9cbfd0121ba9357e27c80b0a8e4499c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:28 +0000
Subject: [PATCH 25/63] fix: retraining goes on from the model it read instead
 of unset probabilities

---
 apertium/tagger.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/apertium/tagger.cc b/apertium/tagger.cc
index 0b1b4af..5d8c0a7 100644
--- a/apertium/tagger.cc
+++ b/apertium/tagger.cc
@@ -559,7 +559,11 @@ MorphoStream* apertium_tagger::setup_untagged_morpho_stream(
     UFILE* *UntaggedCorpus) {
   *UntaggedCorpus = try_open_file_utf8("UNTAGGED_CORPUS", UntaggedFn, "r");
 
-  FILE_Tagger_.read_dictionary(DicFn);
+  // Retraining has no dictionary: it goes on from the classes and the
+  // probabilities of the model that was read.
+  if (DicFn != NULL) {
+    FILE_Tagger_.read_dictionary(DicFn);
+  }
 
   return new FileMorphoStream(UntaggedFn, true, &FILE_Tagger_.get_tagger_data());
 }
-- 
2.43.0


From d5b35c1b18ac1c6cc59ed91e610606a1cc56d373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:56 +0000
Subject: [PATCH 26/63] fix: tagger -f writes units joined by '+' as one
 lexical unit

---
 apertium/tagger_word.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/apertium/tagger_word.cc b/apertium/tagger_word.cc
index cb86bdc..26faec4 100644
--- a/apertium/tagger_word.cc
+++ b/apertium/tagger_word.cc
@@ -222,17 +222,18 @@ TaggerWord::get_all_chosen_tag_first(TTag &t, int const TAG_kEOF) {
     } else {
       ret += '^';
     }
-  }
 
-  ret.append(superficial_form);
+    ret.append(superficial_form);
+    ret += '/';
+  }
 
   if (lexical_forms.size()==0) { // This is an UNKNOWN WORD
-    ret += "/*"_u;
+    ret += '*';
     ret.append(superficial_form);
   } else {
-    ret+="/"_u;
     ret.append(lexical_forms[t]);
-    if (lexical_forms.size()>1) {
+    // the parts of a unit joined by '+' have no analyses of the whole to list
+    if (lexical_forms.size()>1 && !plus_cut && !previous_plus_cut) {
       for (auto& it : tags) {
         if (it != t) {
           ret += '/';
-- 
2.43.0


From d25b7da89f8f713f5c0fb20339cef75e4d557b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:37 +0000
Subject: [PATCH 27/63] fix: an unset value of the feature machine no longer
 frees stray memory

---
 apertium/perceptron_spec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/perceptron_spec.h b/apertium/perceptron_spec.h
index 89347ee..de34ca7 100644
--- a/apertium/perceptron_spec.h
+++ b/apertium/perceptron_spec.h
@@ -219,7 +219,7 @@ public:
       swap(a.type, b.type);
     }
     // Smart pointer + tagged union safe to store in STL types
-    StackValue() {}
+    StackValue() : StackValue(0) {}
     StackValue(const StackValue &other) {
       // C++11: Probably reference counting with shared_ptr would be better
       // than all this copying if it were available
-- 
2.43.0


From be5e8b71f72cdb20b191b5dd033b9114df8840db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:26 +0000
Subject: [PATCH 28/63] fix: apertium-tagger-apply-new-rules reports a model it
 could not write

---
 apertium/apertium_tagger_apply_new_rules.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/apertium/apertium_tagger_apply_new_rules.cc b/apertium/apertium_tagger_apply_new_rules.cc
index e99997f..e985b79 100644
--- a/apertium/apertium_tagger_apply_new_rules.cc
+++ b/apertium/apertium_tagger_apply_new_rules.cc
@@ -164,6 +164,10 @@ int main(int argc, char* argv[]) {
   check_file(fout, fileout);
   cerr<<"Writing apertium-tagger data to file '"<<fileout<<"' ... "<<flush;
   hmm.serialise(fout);
-  fclose(fout);
+  bool failed = (ferror(fout) != 0);
+  if (fclose(fout) != 0 || failed) {
+    cerr<<"Error: cannot write file '"<<fileout<<"'\n";
+    exit(EXIT_FAILURE);
+  }
   cerr<<"done.\n";
 }
-- 
2.43.0


From fb249c7cba652b16b640cd9fed976e5ac60b506d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:26 +0000
Subject: [PATCH 29/63] fix: apertium-filter-ambiguity reports output it could
 not write

---
 apertium/apertium_filter_ambiguity.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/apertium/apertium_filter_ambiguity.cc b/apertium/apertium_filter_ambiguity.cc
index c9c61c3..63513cb 100644
--- a/apertium/apertium_filter_ambiguity.cc
+++ b/apertium/apertium_filter_ambiguity.cc
@@ -75,5 +75,11 @@ int main(int argc, char *argv[])
   HMM hmm(&tdhmm);
   hmm.filter_ambiguity_classes(input, output);
 
+  FILE* out = u_fgetfile(output);
+  if (fflush(out) != 0 || ferror(out)) {
+    cerr << "Error: Unable to write the output." << endl;
+    exit(EXIT_FAILURE);
+  }
+
   return EXIT_SUCCESS;
 }
-- 
2.43.0


From 4d67f6faf28aca432bfb68026ba3cff740b828b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:09 +0000
Subject: [PATCH 30/63] fix: deformatters with -n leave the full stops of the
 text alone

---
 apertium/deformat.xsl | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/apertium/deformat.xsl b/apertium/deformat.xsl
index 864ead8..9da6957 100644
--- a/apertium/deformat.xsl
+++ b/apertium/deformat.xsl
@@ -449,11 +449,9 @@ void preDot()
 {
   if(eosIncond)
   {
-    if(noDot)
-    {
-      fputs_unlocked("[]", yyout);
-    }
-    else
+    // the reformatter takes back ".[]": an empty blank alone, after a full
+    // stop of the text, would make it remove that full stop
+    if(!noDot)
     {
       fputs_unlocked(".[]", yyout);
     }
@@ -469,11 +467,9 @@ void printBuffer()
   }
   if(isDot &amp;&amp; !eosIncond)
   {
-    if(noDot)
-    {
-      fputs_unlocked("[]", yyout);
-    }
-    else
+    // the reformatter takes back ".[]": an empty blank alone, after a full
+    // stop of the text, would make it remove that full stop
+    if(!noDot)
     {
       fputs_unlocked(".[]", yyout);
     }
-- 
2.43.0


From 9b0608e5a486100e3340226b748a42e0f513ee8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:54 +0000
Subject: [PATCH 31/63] fix: formatters report large blocks they could not
 write or read back

---
 apertium/deformat.xsl | 13 +++++++++++++
 apertium/reformat.xsl |  5 +++++
 2 files changed, 18 insertions(+)

diff --git a/apertium/deformat.xsl b/apertium/deformat.xsl
index 9da6957..28add80 100644
--- a/apertium/deformat.xsl
+++ b/apertium/deformat.xsl
@@ -479,7 +479,20 @@ void printBuffer()
   {
     string filename = tmpnam(NULL);
     UFILE *largeblock = u_fopen(filename.c_str(), "wb", NULL, NULL);
+    if(!largeblock)
+    {
+      cerr &lt;&lt; "ERROR: Cannot create file '" &lt;&lt; filename &lt;&lt; "'." &lt;&lt; endl;
+      exit(EXIT_FAILURE);
+    }
     write(buffer, largeblock);
+    FILE *block = u_fgetfile(largeblock);
+    if(fflush(block) != 0 || ferror(block))
+    {
+      cerr &lt;&lt; "ERROR: Cannot write file '" &lt;&lt; filename &lt;&lt; "'." &lt;&lt; endl;
+      u_fclose(largeblock);
+      remove(filename.c_str());
+      exit(EXIT_FAILURE);
+    }
     u_fclose(largeblock);
     preDot();
     fputc_unlocked('[', yyout);
diff --git a/apertium/reformat.xsl b/apertium/reformat.xsl
index f471823..d1e43ef 100644
--- a/apertium/reformat.xsl
+++ b/apertium/reformat.xsl
@@ -88,6 +88,11 @@ using namespace std;
   while((mychar = fgetc(temp)) != EOF) {
     fputc_unlocked(mychar, yyout);
   }
+  if(ferror(temp))
+  {
+    cerr &lt;&lt; "ERROR: Cannot read file '" &lt;&lt; filename &lt;&lt;"'." &lt;&lt; endl;
+    exit(EXIT_FAILURE);
+  }
   fclose(temp);
   unlink(filename.c_str());
 }
-- 
2.43.0


From 488d1e38cce3802381c6f1fe2edd9784fd20afe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:25 +0000
Subject: [PATCH 32/63] fix: postchunk leaked the blank at the end of a chunk

---
 apertium/postchunk.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index 6a600fa..aca44bf 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -729,12 +729,14 @@ Postchunk::applyRule()
 
   for(unsigned int i = 0, limit = tmpword.size(); i != limit; i++)
   {
-    if(i != 0)
-    {
-      delete tmpblank[i];
-    }
     delete tmpword[i];
   }
+  // the first blank belongs to the input buffer; a chunk that ends in a
+  // blank has one more of them than it has words
+  for(unsigned int i = 1, limit = tmpblank.size(); i < limit; i++)
+  {
+    delete tmpblank[i];
+  }
   tmpword.clear();
   tmpblank.clear();
   ms.init(me->getInitial());
-- 
2.43.0


From 0129cf6f27422b4190aa313762414b44c9bff262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:10 +0000
Subject: [PATCH 33/63] Revert "fix: an unset value of the feature machine no
 longer frees stray memory"

This reverts commit d25b7da89f8f713f5c0fb20339cef75e4d557b41.
---
 apertium/perceptron_spec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/perceptron_spec.h b/apertium/perceptron_spec.h
index de34ca7..89347ee 100644
--- a/apertium/perceptron_spec.h
+++ b/apertium/perceptron_spec.h
@@ -219,7 +219,7 @@ public:
       swap(a.type, b.type);
     }
     // Smart pointer + tagged union safe to store in STL types
-    StackValue() : StackValue(0) {}
+    StackValue() {}
     StackValue(const StackValue &other) {
       // C++11: Probably reference counting with shared_ptr would be better
       // than all this copying if it were available
-- 
2.43.0


From e4c408d2cbd517a9a70d5fd1c25ba510a85ee34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:52 +0000
Subject: [PATCH 34/63] fix: transfer pattern matching slowed down and failed
 on words with many escaped characters

The pattern of a lemma of any form had a second way to read a backslash,
although words are matched without their backslashes: every backslash in a
word doubled the number of states until the buffer of states overflowed and
the rule was lost.
---
 apertium/trx_reader.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/apertium/trx_reader.cc b/apertium/trx_reader.cc
index 5a8d8eb..3ce1157 100644
--- a/apertium/trx_reader.cc
+++ b/apertium/trx_reader.cc
@@ -42,8 +42,6 @@ TRXReader::insertCatItem(Transducer& trans, const UString& lemma, const UString&
   if (lemma.empty()) {
     state = trans.insertSingleTransduction(any_char, state);
     trans.linkStates(state, state, any_char);
-    int another = trans.insertSingleTransduction('\\', state);
-    trans.linkStates(another, state, any_char);
   } else {
     for (size_t i = 0; i < lemma.size(); i++) {
       if (lemma[i] == '\\') {
-- 
2.43.0


From 020b5c317113147f03a3e7c538b7796a87d6ddc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:52 +0000
Subject: [PATCH 35/63] fix: postchunk -w changed the case of words in chunks a
 rule takes

---
 apertium/postchunk.cc | 4 ++--
 apertium/postchunk.h  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index aca44bf..0d623d3 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -987,11 +987,11 @@ Postchunk::splitWordsAndBlanks(UString const &chunk, vector<UString *> &words,
   bool uppercase_first = false;
   bool lastblank = true;
 
-  if(case_info == "AA"_u)
+  if(!dictionary_case && case_info == "AA"_u)
   {
     uppercase_all = true;
   }
-  else if(case_info == "Aa"_u)
+  else if(!dictionary_case && case_info == "Aa"_u)
   {
     uppercase_first = true;
   }
diff --git a/apertium/postchunk.h b/apertium/postchunk.h
index 809d800..3c11dfe 100644
--- a/apertium/postchunk.h
+++ b/apertium/postchunk.h
@@ -62,7 +62,7 @@ private:
   static vector<UString> getVecTags(UString const &chunk);
   static int beginChunk(UString const &chunk);
   static int endChunk(UString const &chunk);
-  static void splitWordsAndBlanks(UString const &chunk,
+  void splitWordsAndBlanks(UString const &chunk,
 				  vector<UString *> &words,
 				  vector<UString *> &blanks);
   static UString pseudolemma(UString const &chunk);
-- 
2.43.0


From 3affb620ecd720c8b985d2540e4e55846e90d0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:52 +0000
Subject: [PATCH 36/63] fix: clips of a chunk's lemma ran on into its content

An empty lemma was answered with the content if that had no tags, and an
escaped brace in the lemma was taken for the beginning of the content.
---
 apertium/interchunk_word.cc | 23 +++++------------------
 apertium/transfer_data.cc   |  4 ++--
 2 files changed, 7 insertions(+), 20 deletions(-)

diff --git a/apertium/interchunk_word.cc b/apertium/interchunk_word.cc
index 14a27b3..fa99b11 100644
--- a/apertium/interchunk_word.cc
+++ b/apertium/interchunk_word.cc
@@ -100,27 +100,14 @@ InterchunkWord::init(UString const &chunk)
 UString
 InterchunkWord::chunkPart(ApertiumRE const &part)
 {
-  UString result = part.match(chunk);
-  if(result.size() == 0)
-  {
-    result = part.match(queue);
-    if(result.size() != queue.size())
-    {
-      return ""_u;
-    }
-    else
-    {
-      return result;
-    }
-  }
-  else if(result.size() == chunk.size())
-  {
-    return part.match(chunk+queue);
-  }
-  else
+  // the content or the whole chunk; any other part is looked up in the
+  // head only, as the lemma could otherwise run on into the content
+  UString result = part.match(chunk + queue);
+  if(result == queue || result.size() == chunk.size() + queue.size())
   {
     return result;
   }
+  return part.match(chunk);
 }
 
 UString
diff --git a/apertium/transfer_data.cc b/apertium/transfer_data.cc
index 11d125a..36f18ba 100644
--- a/apertium/transfer_data.cc
+++ b/apertium/transfer_data.cc
@@ -53,8 +53,8 @@ TransferData::TransferData()
   attr_items["whole"_u] = "(.+)"_u;
   attr_items["tags"_u] = unescaped + "((<[^>]+>)+)"_u;
   attr_items["chname"_u] = "(\\{([^/]+)\\/)"_u; // includes delimiters { and / !!!
-  attr_items["chcontent"_u] = "(\\{.+)"_u;
-  attr_items["content"_u] = "(\\{.+)"_u;
+  attr_items["chcontent"_u] = unescaped + "(\\{.+)"_u;
+  attr_items["content"_u] = unescaped + "(\\{.+)"_u;
 }
 
 TransferData::~TransferData()
-- 
2.43.0


From 51107b7e67fa64383b1e905304b8fb07f0ec437d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:52 +0000
Subject: [PATCH 37/63] fix: transfer stages lost words after a rejected rule
 that consumed fewer words than it matched

The end of the rejected match was kept as the position to go on from.
---
 apertium/interchunk.cc | 1 +
 apertium/postchunk.cc  | 1 +
 apertium/transfer.cc   | 1 +
 3 files changed, 3 insertions(+)

diff --git a/apertium/interchunk.cc b/apertium/interchunk.cc
index c484950..bf6dbf7 100644
--- a/apertium/interchunk.cc
+++ b/apertium/interchunk.cc
@@ -508,6 +508,7 @@ Interchunk::interchunk(InputFile& in, UFILE* out)
               num_consumed_words++;
             }
           }
+          last = input_buffer.getPos();
         }
         else
         {
diff --git a/apertium/postchunk.cc b/apertium/postchunk.cc
index 0d623d3..3fd9ef8 100644
--- a/apertium/postchunk.cc
+++ b/apertium/postchunk.cc
@@ -604,6 +604,7 @@ Postchunk::postchunk(InputFile& in, UFILE* out)
               num_consumed_words++;
             }
           }
+          last = input_buffer.getPos();
         }
         else
         {
diff --git a/apertium/transfer.cc b/apertium/transfer.cc
index 87edb96..a05e6b2 100644
--- a/apertium/transfer.cc
+++ b/apertium/transfer.cc
@@ -1023,6 +1023,7 @@ Transfer::transfer(InputFile& in, UFILE* out)
               num_consumed_words++;
             }
           }
+          last = input_buffer.getPos();
         }
         else
         {
-- 
2.43.0


From f17a8050f6b87f11d392b37cc4ea5dc161f56d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:11 +0000
Subject: [PATCH 38/63] fix: a word with an unknown ambiguity class must not
 replace the open class of the tagger

find_similar_ambiguity_class kept its result in a reference to the open
class of the tagger data, so the first word whose ambiguity class the
model lacks changed the tags of every unknown word after it, also those
of later requests with null flush.
---
 apertium/tagger_utils.cc | 8 ++++----
 apertium/tagger_utils.h  | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/apertium/tagger_utils.cc b/apertium/tagger_utils.cc
index 3da0415..1fcae60 100644
--- a/apertium/tagger_utils.cc
+++ b/apertium/tagger_utils.cc
@@ -145,9 +145,9 @@ tagger_utils::add_neccesary_ambg_classes(TaggerData &td) {
   }
 }
 
-set<TTag> &
+set<TTag>
 tagger_utils::find_similar_ambiguity_class(TaggerData &td, set<TTag> &c) {
-  set<TTag> &ret = td.getOpenClass();
+  set<TTag> ret = td.getOpenClass(); // a copy: the open class itself must not change
   Collection &output = td.getOutput();
 
   for (int k=0; k<output.size(); k++) {
@@ -192,7 +192,7 @@ static void _warn_absent_ambiguity_class(TaggerWord &word) {
   cerr << "New ambiguity class: " << word.get_string_tags() << "\n";
 }
 
-set<TTag> &
+set<TTag>
 tagger_utils::require_similar_ambiguity_class(TaggerData &td, set<TTag> &tags, TaggerWord &word, bool warn) {
   if (td.getOutput().has_not(tags)) {
     if (warn) {
@@ -203,7 +203,7 @@ tagger_utils::require_similar_ambiguity_class(TaggerData &td, set<TTag> &tags, T
   return tags;
 }
 
-set<TTag> &
+set<TTag>
 tagger_utils::require_similar_ambiguity_class(TaggerData &td, set<TTag> &tags) {
   if (td.getOutput().has_not(tags)) {
     return find_similar_ambiguity_class(td, tags);
diff --git a/apertium/tagger_utils.h b/apertium/tagger_utils.h
index 31b6458..2c3a1df 100644
--- a/apertium/tagger_utils.h
+++ b/apertium/tagger_utils.h
@@ -92,15 +92,15 @@ void count_ambg_class_freq(Collection &output, vector<unsigned int> &acc,
 *  @param c set of tags (ambiguity class)
 *  @return a known ambiguity class
 */
-set<TTag> & find_similar_ambiguity_class(TaggerData &td, set<TTag> &c);
+set<TTag> find_similar_ambiguity_class(TaggerData &td, set<TTag> &c);
 
 /** Dies with an error message if the tags aren't in the tagger data */
 void require_ambiguity_class(TaggerData &td, set<TTag> &tags, TaggerWord &word, int nw);
 
 /** As with find_similar_ambiguity_class, but returns tags if it's already fine
  * & prints a warning if warn */
-set<TTag> & require_similar_ambiguity_class(TaggerData &td, set<TTag> &tags, TaggerWord &word, bool warn);
-set<TTag> & require_similar_ambiguity_class(TaggerData &td, set<TTag> &tags);
+set<TTag> require_similar_ambiguity_class(TaggerData &td, set<TTag> &tags, TaggerWord &word, bool warn);
+set<TTag> require_similar_ambiguity_class(TaggerData &td, set<TTag> &tags);
 
 /** Just prints a warning if warn */
 void warn_absent_ambiguity_class(TaggerData &td, set<TTag> &tags, TaggerWord &word, bool warn);
-- 
2.43.0


From 3d45c47889c1dd0f306c20659098005379fc078b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:28 +0000
Subject: [PATCH 39/63] fix: keep the discard-on-ambiguity rules when tagger
 data is copied

They were lost between the tag definition file and the model, so they
never had an effect.
---
 apertium/tagger_data.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apertium/tagger_data.cc b/apertium/tagger_data.cc
index 0eb93ec..ec83d9b 100644
--- a/apertium/tagger_data.cc
+++ b/apertium/tagger_data.cc
@@ -31,6 +31,7 @@ TaggerData::copy(TaggerData const &o)
   constants = o.constants;
   output = o.output;
   plist = o.plist;
+  discard = o.discard;
 }
 
 TaggerData::TaggerData()
-- 
2.43.0


From 018840f3d6d04cd3a953aa0f3b8cceeb3355ba3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:42 +0000
Subject: [PATCH 40/63] fix: discard-on-ambiguity dropped readings the rule
 does not name

After removing a reading the loop went on behind the one that had taken
its place, which was then missing from the set of tags.
---
 apertium/tagger_word.cc | 30 +++++++-----------------------
 1 file changed, 7 insertions(+), 23 deletions(-)

diff --git a/apertium/tagger_word.cc b/apertium/tagger_word.cc
index 26faec4..1cce7e7 100644
--- a/apertium/tagger_word.cc
+++ b/apertium/tagger_word.cc
@@ -343,33 +343,17 @@ TaggerWord::outputOriginal(UFILE *output) {
 void
 TaggerWord::discardOnAmbiguity(UString const &tags)
 {
-  if(isAmbiguous())
+  map<TTag, UString>::iterator it = lexical_forms.begin();
+  while(isAmbiguous() && it != lexical_forms.end())
   {
-    map<TTag, UString>::iterator it = lexical_forms.begin(),
-                              limit = lexical_forms.end();
-    set<TTag> newsettag;
-    while(it != limit)
+    if(match(it->second, tags))
     {
-      if(match(it->second, tags))
-      {
-        lexical_forms.erase(it);
-        it = lexical_forms.begin();
-      }
-      else
-      {
-        newsettag.insert(it->first);
-      }
-
-      if(lexical_forms.size() == 1)
-      {
-        newsettag.insert(lexical_forms.begin()->first);
-        break;
-      }
-      it++;
+      this->tags.erase(it->first);
+      it = lexical_forms.erase(it);
     }
-    if(tags.size() != newsettag.size())
+    else
     {
-      this->tags = newsettag;
+      it++;
     }
   }
 }
-- 
2.43.0


From e1d5a80d1b128f172494094821980c593258f377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:42 +0000
Subject: [PATCH 41/63] fix: taggers took an escaped < of a lemma for the
 beginning of a tag

Such readings got no coarse tag, so the tagger chose among them blindly.
---
 apertium/file_morpho_stream.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/apertium/file_morpho_stream.cc b/apertium/file_morpho_stream.cc
index b823688..e19b3ce 100644
--- a/apertium/file_morpho_stream.cc
+++ b/apertium/file_morpho_stream.cc
@@ -159,7 +159,14 @@ FileMorphoStream::lrlmClassify(UString const &str, int &ivwords)
   ms.init(me->getInitial());
   for(int i = 0, limit = str.size(); i != limit; i++)
   {
-    if(str[i] != '<')
+    if(str[i] == '\\' && i != limit - 1)
+    {
+      // an escaped character is part of the lemma, whatever it is
+      ms.step(str[i], ca_any_char);
+      i++;
+      ms.step(u_tolower(str[i]), ca_any_char);
+    }
+    else if(str[i] != '<')
     {
       if(str[i] == '+')
       {
-- 
2.43.0


From 74a433fccd8bb4ec3e73b9dcab000ffbca6ba96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:20 +0000
Subject: [PATCH 42/63] fix: sliding-window training skipped enforce rules of
 the middle word

---
 apertium/lswpost.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/apertium/lswpost.cc b/apertium/lswpost.cc
index 4192fe2..a514d83 100644
--- a/apertium/lswpost.cc
+++ b/apertium/lswpost.cc
@@ -211,7 +211,8 @@ bool LSWPoST::is_valid_seq(TTag left, TTag mid, TTag right) {
       if (!found) {
         return false;
       }
-    } else if (mid == enforce_rules[r].tagi) {
+    }
+    if (mid == enforce_rules[r].tagi) {
       bool found = false;
       for (size_t j = 0; j < enforce_rules[r].tagsj.size(); ++j) {
         if (enforce_rules[r].tagsj[j] == right) {
-- 
2.43.0


From ee06a87c8c99454402fc1e96ae918edc2348fdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:20 +0000
Subject: [PATCH 43/63] fix: crash when the analysed text of HMM training is
 shorter than the tagged text

---
 apertium/hmm.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/apertium/hmm.cc b/apertium/hmm.cc
index 3dd9414..d79fcd5 100644
--- a/apertium/hmm.cc
+++ b/apertium/hmm.cc
@@ -291,6 +291,11 @@ HMM::init_probabilities_from_tagged_text(MorphoStream &stream_tagged,
   word_tagged = stream_tagged.get_next_word();
   word_untagged = stream_untagged.get_next_word();
   while(word_tagged) {
+    if (word_untagged==NULL) {
+      cerr<<"word_untagged==NULL\n";
+      exit(1);
+    }
+
     cerr<<*word_tagged;
     cerr<<" -- "<<*word_untagged<<"\n";
 
@@ -306,11 +311,6 @@ HMM::init_probabilities_from_tagged_text(MorphoStream &stream_tagged,
 
     tag2 = tag1;
 
-    if (word_untagged==NULL) {
-      cerr<<"word_untagged==NULL\n";
-      exit(1);
-    }
-
     if (word_tagged->get_tags().size()==0) // Unknown word
       tag1 = -1;
     else if (word_tagged->get_tags().size()>1) // Ambiguous word
-- 
2.43.0


From 6b8de36d1a4b802bea9c6d9328e54c437546af14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:20 +0000
Subject: [PATCH 44/63] fix: def-set of perceptron feature files was always
 rejected

---
 apertium/mtx_reader.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/apertium/mtx_reader.cc b/apertium/mtx_reader.cc
index 97ec055..7abcbf6 100644
--- a/apertium/mtx_reader.cc
+++ b/apertium/mtx_reader.cc
@@ -101,13 +101,13 @@ void MTXReader::procCoarseTags()
 
 void MTXReader::procSetDef()
 {
-  std::string name = attrib_str("name"_u);
+  std::string set_name = attrib_str("name"_u);
   stepToNextTag();
   size_t set_idx = spec.set_consts.size();
   spec.set_consts.push_back(VMSet());
   VMSet &vm_set = spec.set_consts.back();
   while (type != XML_READER_TYPE_END_ELEMENT) {
-    if (name == "set-member") {
+    if (name == "set-member"_u) {
       std::string tag = attrib_str("tag"_u);
       std::string str = attrib_str("str"_u);
       vm_set.insert(tag.empty() ? str : tag);
@@ -116,8 +116,8 @@ void MTXReader::procSetDef()
     }
     stepToNextTag();
   }
-  set_names[name] = set_idx;
-  assert(name == "def-set");
+  set_names[set_name] = set_idx;
+  assert(name == "def-set"_u);
   stepToNextTag();
 }
 
-- 
2.43.0


From ae7380dfa131a2b79f82bccabba0aa116bb40d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:20 +0000
Subject: [PATCH 45/63] fix: toklen, strlen and arrlen of perceptron feature
 files could not be read

---
 apertium/mtx_reader.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/apertium/mtx_reader.cc b/apertium/mtx_reader.cc
index 7abcbf6..1e40506 100644
--- a/apertium/mtx_reader.cc
+++ b/apertium/mtx_reader.cc
@@ -227,19 +227,22 @@ MTXReader::procIntExpr(bool allow_fail)
       emitOpcode(VM::ADD);
       stepToNextTag();
     } else if (name == "toklen"_u) {
+      stepToNextTag();
       procIntExpr();
       assert(name == "toklen"_u && type == XML_READER_TYPE_END_ELEMENT);
       emitOpcode(VM::TOKLENWRD);
       stepToNextTag();
     } else if (name == "strlen"_u) {
+      stepToNextTag();
       procStrExpr();
       assert(name == "strlen"_u && type == XML_READER_TYPE_END_ELEMENT);
       emitOpcode(VM::STRLEN);
       stepToNextTag();
     } else if (name == "arrlen"_u) {
+      stepToNextTag();
       procStrArrExpr();
       assert(name == "arrlen"_u && type == XML_READER_TYPE_END_ELEMENT);
-      procBinCompareOp(VM::ARRLEN);
+      emitOpcode(VM::ARRLEN);
       stepToNextTag();
     } else {
       if (allow_fail) {
-- 
2.43.0


From ad0a91e43f05acac12a8da54d01517f2ef955e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:20 +0000
Subject: [PATCH 46/63] fix: coarse tags of the perceptron tagger left out fine
 tags the definitions do not name

---
 apertium/tagger_data_percep_coarse_tags.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/apertium/tagger_data_percep_coarse_tags.cc b/apertium/tagger_data_percep_coarse_tags.cc
index 95da0a6..e6a6707 100644
--- a/apertium/tagger_data_percep_coarse_tags.cc
+++ b/apertium/tagger_data_percep_coarse_tags.cc
@@ -68,6 +68,8 @@ const UString& TaggerDataPercepCoarseTags::coarsen(const Apertium::Morpheme &wrd
     int symbol = alphabet(tag);
     if (symbol) {
       ms.step(symbol, ca_any_tag);
+    } else {
+      ms.step(ca_any_tag);
     }
   }
   // Output result
-- 
2.43.0


From b6834774bd05fcf8b108dc0b3736210514f377ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:20 +0000
Subject: [PATCH 47/63] fix: types of loop variables of perceptron feature
 files were mixed up

---
 apertium/mtx_reader.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/apertium/mtx_reader.cc b/apertium/mtx_reader.cc
index 1e40506..5f2bd86 100644
--- a/apertium/mtx_reader.cc
+++ b/apertium/mtx_reader.cc
@@ -975,14 +975,15 @@ MTXReader::procForEach(ExprType expr_type)
   }
   size_t slot_idx = slot_counter++;
   slot_names[var_name] = slot_idx;
+  slot_types.resize(std::max(slot_types.size(), slot_counter));
   bool has_expr = false;
   stepToNextTag();
   if (procStrArrExpr(true)) {
-    slot_types.push_back(VM::STRVAL);
+    slot_types[slot_idx] = VM::STRVAL;
     has_expr = true;
   }
   if (!has_expr && procWordoidArrExpr(true)) {
-    slot_types.push_back(VM::WRDVAL);
+    slot_types[slot_idx] = VM::WRDVAL;
     has_expr = true;
   }
   if (!has_expr) {
-- 
2.43.0


From c54d5c40c51f1a0f2a107e3e8e6744cf6add02fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:20 +0000
Subject: [PATCH 48/63] fix: macros of perceptron feature files put the code of
 their arguments at the wrong place

---
 apertium/mtx_reader.cc | 42 ++++++++++++++++++++----------------------
 apertium/mtx_reader.h  |  7 ++++++-
 2 files changed, 26 insertions(+), 23 deletions(-)

diff --git a/apertium/mtx_reader.cc b/apertium/mtx_reader.cc
index 5f2bd86..4bf8aff 100644
--- a/apertium/mtx_reader.cc
+++ b/apertium/mtx_reader.cc
@@ -331,7 +331,8 @@ bool MTXReader::tryProcArg(ExprType expr_type, bool allow_fail)
     if (in_global_defn) {
       VarNVMap::const_iterator arg_name_it = template_arg_names.find(var_name);
       if (arg_name_it != template_arg_names.end()) {
-        cur_replacements->push_back(make_pair(arg_name_it->second, expr_type));
+        TemplateReplacement repl = {cur_feat->size(), arg_name_it->second, expr_type};
+        cur_replacements->push_back(repl);
         stepPastSelfClosingTag("var"_u);
         return true;
       }
@@ -372,15 +373,20 @@ bool MTXReader::tryProcVar(VM::StackValueType svt)
       parseError("Macro " + var_name + " returns the wrong type");
     }
     std::pair<VM::FeatureDefn, TemplateReplacements> &templ_defn = template_defns[templ_idx];
-    // Get arg values
+    // Get arg values, in the order the macro declares the arguments it uses
     stepToNextTag();
-    std::vector<VM::FeatureDefn> arg_values;
-    VM::FeatureDefn *saved_feat = cur_feat;
+    std::map<size_t, ExprType> arg_types;
     TemplateReplacements::const_iterator templ_repl_it = templ_defn.second.begin();
     for (; templ_repl_it != templ_defn.second.end(); templ_repl_it++) {
-      arg_values.push_back(VM::FeatureDefn());
+      arg_types.insert(make_pair(templ_repl_it->arg, templ_repl_it->type));
+    }
+    std::vector<VM::FeatureDefn> arg_values;
+    VM::FeatureDefn *saved_feat = cur_feat;
+    std::map<size_t, ExprType>::const_iterator arg_type_it = arg_types.begin();
+    for (; arg_type_it != arg_types.end(); arg_type_it++) {
+      arg_values.resize(arg_type_it->first + 1);
       cur_feat = &arg_values.back();
-      procTypeExpr(templ_repl_it->second);
+      procTypeExpr(arg_type_it->second);
     }
     cur_feat = saved_feat;
     // Check for previous instanciation...
@@ -388,26 +394,18 @@ bool MTXReader::tryProcVar(VM::StackValueType svt)
         template_instanciations.find(make_pair(templ_idx, arg_values));
     if (templ_instcia_it == template_instanciations.end()) {
       // and instanciate if doesn't exist...
-      // by ordering argument defns correctly
-      vector<unsigned int> indices(templ_defn.second.size(), 0);
-      for (size_t i = 0; i < templ_defn.second.size(); i++) {
-        indices[i] = i;
-      }
-      SortByComparer<std::pair<size_t, ExprType>, int> sbc(templ_defn.second);
-      std::sort(indices.begin(), indices.end(), sbc);
-      // And then copying the template defn bits and the argument defn bits into the global defn
+      // by copying the template defn bits and the argument defn bits into the global defn
       VM::FeatureDefn::const_iterator src_start_it = templ_defn.first.begin();
       VM::FeatureDefn::const_iterator src_end_it = templ_defn.first.end();
       VM::FeatureDefn::const_iterator src_cur_it = src_start_it;
       spec.global_defns.push_back(VM::FeatureDefn());
       VM::FeatureDefn &global_defn = spec.global_defns.back();
       std::back_insert_iterator<VM::FeatureDefn> dest_it(global_defn);
-      for (size_t i = 0; i < indices.size(); i++) {
-        size_t repl_i = indices[i];
-        size_t offset = templ_defn.second[repl_i].first;
-        VM::FeatureDefn &arg_src = arg_values[repl_i];
-        std::copy(src_cur_it, src_cur_it + offset, dest_it);
-        src_cur_it = src_start_it + offset;
+      templ_repl_it = templ_defn.second.begin();
+      for (; templ_repl_it != templ_defn.second.end(); templ_repl_it++) {
+        VM::FeatureDefn &arg_src = arg_values[templ_repl_it->arg];
+        std::copy(src_cur_it, src_start_it + templ_repl_it->offset, dest_it);
+        src_cur_it = src_start_it + templ_repl_it->offset;
         std::copy(arg_src.begin(), arg_src.end(), dest_it);
       }
       std::copy(src_cur_it, src_end_it, dest_it);
@@ -865,8 +863,8 @@ MTXReader::printTmplDefn(const TemplateDefn &tmpl_defn)
     std::cerr << "Replacements:\n"_u;
     TemplateReplacements::const_iterator it = tmpl_defn.second.begin();
     for (; it != tmpl_defn.second.end(); it++) {
-      std::cerr << "Index: "_u << it->first << " "_u;
-      printTypeExpr(it->second);
+      std::cerr << "Index: "_u << it->arg << " "_u;
+      printTypeExpr(it->type);
       std::cerr << "\n"_u;
     }
   }
diff --git a/apertium/mtx_reader.h b/apertium/mtx_reader.h
index c500a26..1d2d9d2 100644
--- a/apertium/mtx_reader.h
+++ b/apertium/mtx_reader.h
@@ -44,7 +44,12 @@ class MTXReader : public XMLReader
 
   typedef PerceptronSpec VM;
   typedef std::map<std::string, size_t> VarNVMap;
-  typedef std::vector<std::pair<size_t, ExprType> > TemplateReplacements;
+  struct TemplateReplacement {
+    size_t offset; // Where in the code of the macro...
+    size_t arg;    // ...the code of which argument goes
+    ExprType type;
+  };
+  typedef std::vector<TemplateReplacement> TemplateReplacements;
   typedef std::map<std::pair<size_t, std::vector<VM::FeatureDefn> >, size_t> InstanciationMap;
   typedef std::pair<VM::FeatureDefn, TemplateReplacements> TemplateDefn;
 public:
-- 
2.43.0


From 63e0eab6b34d99add2bab89b425bab320b9dd2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:42 +0000
Subject: [PATCH 49/63] fix: restore-caps dropped the pieces of a word-bound
 blank after the capitalisation

---
 apertium/caps_restorer.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/apertium/caps_restorer.cc b/apertium/caps_restorer.cc
index 4b0508f..efc2eee 100644
--- a/apertium/caps_restorer.cc
+++ b/apertium/caps_restorer.cc
@@ -176,10 +176,13 @@ CapsRestorer::read_word(InputFile& input)
   if (!cur.wblank.empty()) {
     std::vector<UString> new_pieces;
     auto pieces = StringUtils::split(cur.wblank.substr(2, cur.wblank.size()-4), "; "_u);
+    bool found = false;
     for (auto& it : pieces) {
       if (StringUtils::startswith(it, "c:"_u)) {
-        src_caps = it.substr(2);
-        break;
+        if (!found) {
+          src_caps = it.substr(2);
+          found = true;
+        }
       } else if (delete_wblanks) {
         new_pieces.push_back(it);
       }
-- 
2.43.0


From 64c5580c1e166d60c868645ee3ca3ed61789ffa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:42 +0000
Subject: [PATCH 50/63] fix: restore-caps took a blank without a word for a
 word of a rule

---
 apertium/caps_restorer.cc | 10 +++++++---
 apertium/caps_restorer.h  |  2 +-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/apertium/caps_restorer.cc b/apertium/caps_restorer.cc
index efc2eee..f7909bd 100644
--- a/apertium/caps_restorer.cc
+++ b/apertium/caps_restorer.cc
@@ -49,7 +49,10 @@ CapsRestorer::process(InputFile& input, UFILE* output)
       u_fflush(output);
       continue;
     }
-    read_word(input);
+    if (!read_word(input)) {
+      // only a blank: no rule can end here
+      continue;
+    }
     current_state.step_optional(word_boundary);
     if (current_state.isFinal(finals)) {
       auto path_set = current_state.filterFinalsLRX(finals, alpha, escaped_chars, false, false, 0);
@@ -144,7 +147,7 @@ CapsRestorer::step(int32_t sym)
   }
 }
 
-void
+bool
 CapsRestorer::read_word(InputFile& input)
 {
   LU cur;
@@ -156,7 +159,7 @@ CapsRestorer::read_word(InputFile& input)
   }
   if (input.peek() != '^') {
     words.push_back(std::move(cur));
-    return;
+    return false;
   }
   input.get();
   read_seg(input, cur.form);
@@ -216,4 +219,5 @@ CapsRestorer::read_word(InputFile& input)
   current_state.step(word_boundary);
 
   words.push_back(std::move(cur));
+  return true;
 }
diff --git a/apertium/caps_restorer.h b/apertium/caps_restorer.h
index 857288f..b3421af 100644
--- a/apertium/caps_restorer.h
+++ b/apertium/caps_restorer.h
@@ -54,7 +54,7 @@ private:
 
   std::vector<LU> words;
 
-  void read_word(InputFile& input);
+  bool read_word(InputFile& input);
   void output_all(UFILE* output);
   void step(int32_t sym);
   void read_seg(InputFile& input, UString& str);
-- 
2.43.0


From 40f250cdecf82cc0d01ffe894d396f296e15033f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:10 +0000
Subject: [PATCH 51/63] fix: gen-modes reported success when a mode file could
 not be written

---
 apertium/gen_modes.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/apertium/gen_modes.cc b/apertium/gen_modes.cc
index 450936c..2ff0735 100644
--- a/apertium/gen_modes.cc
+++ b/apertium/gen_modes.cc
@@ -274,6 +274,11 @@ void gen_mode(pipeline& mode, fs::path& file_dir, fs::path& write_dir)
     }
   }
   f << "\n";
+  f.close();
+  if (!f) {
+    cerr << "ERROR: Could not write to " << modefile << endl;
+    exit(EXIT_FAILURE);
+  }
 }
 
 void gen_modes(map<string, pipeline>& modes, fs::path& install_dir, fs::path& dev_dir)
-- 
2.43.0


From 36c4bf32d00cfe5e3e2f806c9df990ce7e9cea4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:10 +0000
Subject: [PATCH 52/63] fix: adapt-docx read an uninitialised pointer for a run
 with an empty text

---
 apertium/adapt_docx.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apertium/adapt_docx.cc b/apertium/adapt_docx.cc
index 7e54d22..9624ca5 100644
--- a/apertium/adapt_docx.cc
+++ b/apertium/adapt_docx.cc
@@ -78,6 +78,7 @@ Walker::Walker(xmlNode *_root, string _name, bool _goDown, xmlElementType _type)
 	name = _name;
 	type = _type;
 	goDown = _goDown;
+	current = NULL;
 	if (root)
 		higher.push(root);
 	if (match(root))
-- 
2.43.0


From 1e2a1d8287c1b8632fa27f793168da2652aa35a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:10 +0000
Subject: [PATCH 53/63] fix: adapt-docx moved text across line breaks, pictures
 and hyperlinks, or removed them

---
 apertium/adapt_docx.cc | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/apertium/adapt_docx.cc b/apertium/adapt_docx.cc
index 9624ca5..d00db05 100644
--- a/apertium/adapt_docx.cc
+++ b/apertium/adapt_docx.cc
@@ -149,6 +149,7 @@ public:
 	string getText() { return text; }
 	void setText(string _text);
 	bool hasText() { return containsText; }
+	bool hasOther() { return containsOther; }
 	void setLast(bool _is) { last = _is; }
 	bool isLast() { return last; }
 	void remove();
@@ -157,6 +158,7 @@ private:
 	xmlNode *text_0;
 	string text;
 	bool containsText;
+	bool containsOther; // line breaks, tabs, pictures...
 	bool last;
 };
 
@@ -191,6 +193,13 @@ TextRun::TextRun(xmlNode *_root)
 	}
 	else
 		containsText = false;
+	containsOther = tt.size() > 1;
+	for (xmlNode *c = root->children; c; c = c->next) {
+		if (c->type == XML_ELEMENT_NODE && c != text_0
+		    && xmlStrcmp(c->name, (const xmlChar*)"rPr") != 0
+		    && xmlStrcmp(c->name, (const xmlChar*)"lastRenderedPageBreak") != 0)
+			containsOther = true;
+	}
 }
 
 void TextRun::setText(string _text)
@@ -205,7 +214,9 @@ void TextRun::remove()
 }
 
 // A list of text runs
-// Only runs than contain text are included in the list
+// Only runs than contain text and nothing else are included in the list;
+// text cannot be moved across any other content (which would change the
+// order of the document, or remove that content with an emptied run)
 class Paragraph {
 public:
 	Paragraph(xmlNode *_root);
@@ -218,10 +229,19 @@ private:
 Paragraph::Paragraph(xmlNode *_root)
 {
 	root = _root;
-	vector<xmlNode*> nodes = Walker::findAll(root->children, "r", false);
-	for (auto it = nodes.begin(); it != nodes.end(); it++) {
-		TextRun *r = new TextRun(*it);
-		if (r->hasText())
+	for (xmlNode *node = root->children; node; node = node->next) {
+		if (node->type != XML_ELEMENT_NODE)
+			continue;
+		if (xmlStrcmp(node->name, (const xmlChar*)"r") != 0) {
+			// hyperlinks and the like have runs of their own
+			if (!runs.empty() && !Walker::findAll(node->children, "r", true).empty())
+				runs.back()->setLast(true);
+			continue;
+		}
+		TextRun *r = new TextRun(node);
+		if (r->hasOther() && !runs.empty())
+			runs.back()->setLast(true);
+		if (r->hasText() && !r->hasOther())
 			runs.push_back(r);
 		else
 			delete r;
-- 
2.43.0


From 2b979e4970f4840a428eb5f15fa0807ccad59b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:57 +0000
Subject: [PATCH 54/63] fix: formatters, taggers and filter-ambiguity ended
 well when a file could not be opened

---
 apertium/apertium-postlatex-raw.l | 10 ++++++++--
 apertium/apertium-postlatex.l     | 10 ++++++++--
 apertium/apertium-prelatex.l      | 10 ++++++++--
 apertium/deformat.xsl             | 16 +++++++++++-----
 apertium/file_morpho_stream.cc    |  2 +-
 apertium/reformat.xsl             | 10 ++++++++--
 6 files changed, 44 insertions(+), 14 deletions(-)

diff --git a/apertium/apertium-postlatex-raw.l b/apertium/apertium-postlatex-raw.l
index 05a4094..9222f5a 100644
--- a/apertium/apertium-postlatex-raw.l
+++ b/apertium/apertium-postlatex-raw.l
@@ -227,6 +227,12 @@ void usage(string const &progname)
   exit(EXIT_SUCCESS);
 }
 
+void cannot_open(string const &name)
+{
+  cerr << "Error: Cannot open '" << name << "'." << endl;
+  exit(EXIT_FAILURE);
+}
+
 int main(int argc, char *argv[])
 {
   LtLocale::tryToSetLocale();
@@ -248,13 +254,13 @@ int main(int argc, char *argv[])
       yyout = fopen(argv[2+base], "w");
       if(!yyout)
       {
-        usage(argv[0]);
+        cannot_open(argv[2+base]);
       }
     case 2:
       yyin = fopen(argv[1+base], "r");
       if(!yyin)
       {
-        usage(argv[0]);
+        cannot_open(argv[1+base]);
       }
       break;
     default:
diff --git a/apertium/apertium-postlatex.l b/apertium/apertium-postlatex.l
index 9a8b565..4a6bedf 100644
--- a/apertium/apertium-postlatex.l
+++ b/apertium/apertium-postlatex.l
@@ -311,6 +311,12 @@ void usage(string const &progname)
   exit(EXIT_SUCCESS);
 }
 
+void cannot_open(string const &name)
+{
+  cerr << "Error: Cannot open '" << name << "'." << endl;
+  exit(EXIT_FAILURE);
+}
+
 int main(int argc, char *argv[])
 {
   LtLocale::tryToSetLocale();
@@ -332,13 +338,13 @@ int main(int argc, char *argv[])
       yyout = fopen(argv[2+base], "w");
       if(!yyout)
       {
-        usage(argv[0]);
+        cannot_open(argv[2+base]);
       }
     case 2:
       yyin = fopen(argv[1+base], "r");
       if(!yyin)
       {
-        usage(argv[0]);
+        cannot_open(argv[1+base]);
       }
       break;
     default:
diff --git a/apertium/apertium-prelatex.l b/apertium/apertium-prelatex.l
index 13faec1..de0f1b9 100644
--- a/apertium/apertium-prelatex.l
+++ b/apertium/apertium-prelatex.l
@@ -414,6 +414,12 @@ void usage(string const &progname)
   exit(EXIT_SUCCESS);
 }
 
+void cannot_open(string const &name)
+{
+  cerr << "Error: Cannot open '" << name << "'." << endl;
+  exit(EXIT_FAILURE);
+}
+
 int main(int argc, char *argv[])
 {
   LtLocale::tryToSetLocale();
@@ -435,13 +441,13 @@ int main(int argc, char *argv[])
       yyout = fopen(argv[2+base], "w");
       if(!yyout)
       {
-        usage(argv[0]);
+        cannot_open(argv[2+base]);
       }
     case 2:
       yyin = fopen(argv[1+base], "r");
       if(!yyin)
       {
-        usage(argv[0]);
+        cannot_open(argv[1+base]);
       }
       break;
     default:
diff --git a/apertium/deformat.xsl b/apertium/deformat.xsl
index 28add80..1601353 100644
--- a/apertium/deformat.xsl
+++ b/apertium/deformat.xsl
@@ -682,6 +682,12 @@ void usage(string const &amp;progname)
   exit(EXIT_SUCCESS);
 }
 
+void cannot_open(string const &amp;name)
+{
+  cerr &lt;&lt; "Error: Cannot open '" &lt;&lt; name &lt;&lt; "'." &lt;&lt; endl;
+  exit(EXIT_FAILURE);
+}
+
 int main(int argc, char *argv[])
 {
   LtLocale::tryToSetLocale();
@@ -726,19 +732,19 @@ int main(int argc, char *argv[])
       yyout = fopen(argv[3+base], "wb");
       if(!yyout)
       {
-        usage(argv[0]);
+        cannot_open(argv[3+base]);
       }
     case 3:
       yyin = fopen(argv[2+base], "rb");
       if(!yyin)
       {
-        usage(argv[0]);
+        cannot_open(argv[2+base]);
       }
     case 2:
       formatfile = u_fopen(argv[1+base], "wb", NULL, NULL);
       if(!formatfile)
       {
-        usage(argv[0]);
+        cannot_open(argv[1+base]);
       }
       break;
     default:
@@ -752,13 +758,13 @@ int main(int argc, char *argv[])
   if ((argc - base) == 3) {
     yyout = fopen(argv[2 + base], "wb");
 	if (!yyout) {
-	  usage(argv[0]);
+	  cannot_open(argv[2 + base]);
 	}
   }
   if ((argc - base) >= 2) {
     yyin = fopen(argv[1 + base], "rb");
     if (!yyin) {
-      usage(argv[0]);
+      cannot_open(argv[1 + base]);
     }
   }
   </xsl:otherwise>
diff --git a/apertium/file_morpho_stream.cc b/apertium/file_morpho_stream.cc
index e19b3ce..5c02741 100644
--- a/apertium/file_morpho_stream.cc
+++ b/apertium/file_morpho_stream.cc
@@ -32,7 +32,7 @@ FileMorphoStream::FileMorphoStream(const char* ftxt, bool d, TaggerData *t) :
   td = t;
   me = td->getPatternList().newMatchExe();
   alphabet = td->getPatternList().getAlphabet();
-  input.open(ftxt);
+  input.open_or_exit(ftxt);
   ca_any_char = alphabet(PatternList::ANY_CHAR);
   ca_any_tag = alphabet(PatternList::ANY_TAG);
 
diff --git a/apertium/reformat.xsl b/apertium/reformat.xsl
index d1e43ef..8ce24be 100644
--- a/apertium/reformat.xsl
+++ b/apertium/reformat.xsl
@@ -154,6 +154,12 @@ void usage(string const &amp;progname)
   exit(EXIT_SUCCESS);
 }
 
+void cannot_open(string const &amp;name)
+{
+  cerr &lt;&lt; "Error: Cannot open '" &lt;&lt; name &lt;&lt; "'." &lt;&lt; endl;
+  exit(EXIT_FAILURE);
+}
+
 int main(int argc, char *argv[])
 {
   LtLocale::tryToSetLocale();
@@ -169,13 +175,13 @@ int main(int argc, char *argv[])
       yyout = fopen(argv[2], "wb");
       if(!yyout)
       {
-        usage(argv[0]);
+        cannot_open(argv[2]);
       }
     case 2:
       yyin = fopen(argv[1], "rb");
       if(!yyin)
       {
-        usage(argv[0]);
+        cannot_open(argv[1]);
       }
       break;
     default:
-- 
2.43.0


From b4517c386d686239f90e57fc27288ffe76954b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:57 +0000
Subject: [PATCH 55/63] fix: data files that end early or fail to be read were
 used as if they were whole

---
 apertium/apertium_restore_caps.cc           |  2 ++
 apertium/apertium_tagger_apply_new_rules.cc |  2 ++
 apertium/apertium_tagger_readwords.cc       |  2 ++
 apertium/shell_utils.cc                     | 10 ++++++++++
 apertium/shell_utils.h                      |  4 ++++
 apertium/tagger.cc                          |  2 ++
 apertium/tagger_data_hmm.cc                 | 12 ++++++++++++
 apertium/tagger_data_lsw.cc                 | 12 ++++++++++++
 apertium/transfer.cc                        |  3 +++
 apertium/transfer_base.cc                   |  3 +++
 apertium/transfer_mult.cc                   |  3 +++
 11 files changed, 55 insertions(+)

diff --git a/apertium/apertium_restore_caps.cc b/apertium/apertium_restore_caps.cc
index 9cf1b79..adf32a3 100644
--- a/apertium/apertium_restore_caps.cc
+++ b/apertium/apertium_restore_caps.cc
@@ -15,6 +15,7 @@
  * along with this program; if not, see <https://www.gnu.org/licenses/>.
  */
 
+#include <apertium/shell_utils.h>
 #include <apertium/caps_restorer.h>
 #include <lttoolbox/cli.h>
 #include <lttoolbox/file_utils.h>
@@ -38,6 +39,7 @@ int main(int argc, char** argv)
 
   FILE* in = openInBinFile(cli.get_files()[0]);
   cr.load(in);
+  Apertium::ShellUtils::check_file_complete(cli.get_files()[0].c_str(), in);
   fclose(in);
 
   InputFile input;
diff --git a/apertium/apertium_tagger_apply_new_rules.cc b/apertium/apertium_tagger_apply_new_rules.cc
index e985b79..7f09a59 100644
--- a/apertium/apertium_tagger_apply_new_rules.cc
+++ b/apertium/apertium_tagger_apply_new_rules.cc
@@ -24,6 +24,7 @@
 #include "getopt_long.h"
 
 #include <apertium/hmm.h>
+#include <apertium/shell_utils.h>
 #include <apertium/tagger_data_hmm.h>
 #include <apertium/tsx_reader.h>
 #include <lttoolbox/string_utils.h>
@@ -145,6 +146,7 @@ int main(int argc, char* argv[]) {
 
   cerr<<"Reading apertium-tagger data from file '"<<filein<<"' ... "<<flush;
   tagger_data_hmm.read(fin);
+  Apertium::ShellUtils::check_file_complete(filein.c_str(), fin);
   fclose(fin);
   cerr<<"done.\n";
 
diff --git a/apertium/apertium_tagger_readwords.cc b/apertium/apertium_tagger_readwords.cc
index 9908f43..0d1f0af 100644
--- a/apertium/apertium_tagger_readwords.cc
+++ b/apertium/apertium_tagger_readwords.cc
@@ -18,6 +18,7 @@
 
 #include "getopt_long.h"
 #include <apertium/file_morpho_stream.h>
+#include <apertium/shell_utils.h>
 #include <apertium/tsx_reader.h>
 #include <apertium/tagger_data_hmm.h>
 #include <lttoolbox/lt_locale.h>
@@ -184,6 +185,7 @@ int main(int argc, char* argv[]) {
     fin=fopen(probfile.c_str(), "r");
     check_file(fin, probfile);
     tagger_data_hmm.read(fin);
+    Apertium::ShellUtils::check_file_complete(probfile.c_str(), fin);
     cerr<<"done.\n";
     fclose(fin);
     check_ambclasses=true;
diff --git a/apertium/shell_utils.cc b/apertium/shell_utils.cc
index e9d040c..43f4393 100644
--- a/apertium/shell_utils.cc
+++ b/apertium/shell_utils.cc
@@ -1,5 +1,7 @@
 #include <apertium/exception.h>
 #include <apertium/shell_utils.h>
+#include <cstdlib>
+#include <iostream>
 
 #ifdef _MSC_VER
 #include <fcntl.h>
@@ -92,5 +94,13 @@ void try_close_file(const char *metavar, const char *filename,
     throw Exception::Shell::FcloseError(what_);
   }
 }
+
+void check_file_complete(const char *name, FILE *file) {
+  if (ferror(file) || feof(file)) {
+    std::cerr << "Error: File '" << name
+              << "' is incomplete or could not be read." << std::endl;
+    exit(EXIT_FAILURE);
+  }
+}
 }
 }
diff --git a/apertium/shell_utils.h b/apertium/shell_utils.h
index f2ca314..557d6a2 100644
--- a/apertium/shell_utils.h
+++ b/apertium/shell_utils.h
@@ -30,6 +30,10 @@ try_open_file_utf8(const char *metavar, const char *filename,
 void try_close_file(const char *metavar, const char *filename,
                     FILE *file);
 
+/** Ends the program when a data file that was read up to its last byte
+ * was shorter than that, or could not be read. */
+void check_file_complete(const char *name, FILE *file);
+
 }
 }
 
diff --git a/apertium/tagger.cc b/apertium/tagger.cc
index 5d8c0a7..182e2e9 100644
--- a/apertium/tagger.cc
+++ b/apertium/tagger.cc
@@ -657,6 +657,7 @@ void apertium_tagger::g_FILE_Tagger(FILE_Tagger &FILE_Tagger_) {
   FILE *Serialised_FILE_Tagger =
       try_open_file("SERIALISED_TAGGER", argv[optind], "rb");
   FILE_Tagger_.deserialise(Serialised_FILE_Tagger);
+  check_file_complete(argv[optind], Serialised_FILE_Tagger);
   try_close_file("SERIALISED_TAGGER", argv[optind], Serialised_FILE_Tagger);
   TaggerWord::setArrayTags(FILE_Tagger_.getArrayTags());
   TaggerWord::generate_marks = TheFlags.getMark();
@@ -687,6 +688,7 @@ void apertium_tagger::r_FILE_Tagger(FILE_Tagger &FILE_Tagger_) {
   FILE *Serialised_FILE_Tagger =
       try_open_file("SERIALISED_TAGGER", ProbFn, "rb");
   FILE_Tagger_.deserialise(Serialised_FILE_Tagger);
+  check_file_complete(ProbFn, Serialised_FILE_Tagger);
   try_close_file("SERIALISED_TAGGER", ProbFn, Serialised_FILE_Tagger);
 
   TaggerWord::setArrayTags(FILE_Tagger_.getArrayTags());
diff --git a/apertium/tagger_data_hmm.cc b/apertium/tagger_data_hmm.cc
index 759ac73..7fbe794 100644
--- a/apertium/tagger_data_hmm.cc
+++ b/apertium/tagger_data_hmm.cc
@@ -272,6 +272,18 @@ TaggerDataHMM::read(FILE *in)
   // read discards on ambiguity
   discard.clear();
 
+  // the file ends here when there are none
+  if(!feof(in) && !ferror(in))
+  {
+    int c = fgetc(in);
+    if(c == EOF && !ferror(in))
+    {
+      clearerr(in);
+      return;
+    }
+    ungetc(c, in);
+  }
+
   unsigned int limit = Compression::multibyte_read(in);
   if(feof(in))
   {
diff --git a/apertium/tagger_data_lsw.cc b/apertium/tagger_data_lsw.cc
index d8a521f..93f206c 100644
--- a/apertium/tagger_data_lsw.cc
+++ b/apertium/tagger_data_lsw.cc
@@ -204,6 +204,18 @@ TaggerDataLSW::read(FILE *in)
   // read discards on ambiguity
   discard.clear();
 
+  // the file ends here when there are none
+  if(!feof(in) && !ferror(in))
+  {
+    int c = fgetc(in);
+    if(c == EOF && !ferror(in))
+    {
+      clearerr(in);
+      return;
+    }
+    ungetc(c, in);
+  }
+
   unsigned int limit = Compression::multibyte_read(in);
   if(feof(in))
   {
diff --git a/apertium/transfer.cc b/apertium/transfer.cc
index a05e6b2..21b853f 100644
--- a/apertium/transfer.cc
+++ b/apertium/transfer.cc
@@ -14,6 +14,7 @@
  * You should have received a copy of the GNU General Public License
  * along with this program; if not, see <https://www.gnu.org/licenses/>.
  */
+#include <apertium/shell_utils.h>
 #include <apertium/transfer.h>
 
 #include <lttoolbox/string_utils.h>
@@ -36,6 +37,7 @@ Transfer::readBil(string const &fstfile)
     exit(EXIT_FAILURE);
   }
   fstp.load(in);
+  Apertium::ShellUtils::check_file_complete(fstfile.c_str(), in);
   fstp.initBiltrans();
   fclose(in);
 }
@@ -50,6 +52,7 @@ Transfer::setExtendedDictionary(string const &fstfile)
     exit(EXIT_FAILURE);
   }
   extended.load(in);
+  Apertium::ShellUtils::check_file_complete(fstfile.c_str(), in);
   extended.initBiltrans();
   fclose(in);
   isExtended = true;
diff --git a/apertium/transfer_base.cc b/apertium/transfer_base.cc
index 566017a..45b2cea 100644
--- a/apertium/transfer_base.cc
+++ b/apertium/transfer_base.cc
@@ -1,3 +1,4 @@
+#include <apertium/shell_utils.h>
 #include <apertium/transfer_base.h>
 #include <lttoolbox/xml_walk_util.h>
 #include <lttoolbox/string_utils.h>
@@ -106,6 +107,8 @@ TransferBase::read(const char* transferfile, const char* datafile)
       listslow[cad_k].insert(StringUtils::tolower(cad_v));
     }
   }
+  Apertium::ShellUtils::check_file_complete(datafile, in);
+  fclose(in);
 }
 
 void
diff --git a/apertium/transfer_mult.cc b/apertium/transfer_mult.cc
index 27ac5d8..c9f399e 100644
--- a/apertium/transfer_mult.cc
+++ b/apertium/transfer_mult.cc
@@ -14,6 +14,7 @@
  * You should have received a copy of the GNU General Public License
  * along with this program; if not, see <https://www.gnu.org/licenses/>.
  */
+#include <apertium/shell_utils.h>
 #include <apertium/transfer_mult.h>
 #include <apertium/trx_reader.h>
 #include <lttoolbox/compression.h>
@@ -124,6 +125,7 @@ TransferMult::readBil(string const &fstfile)
     exit(EXIT_FAILURE);
   }
   fstp.load(in);
+  Apertium::ShellUtils::check_file_complete(fstfile.c_str(), in);
   fstp.initBiltrans();
   fclose(in);
 }
@@ -139,6 +141,7 @@ TransferMult::read(string const &datafile, string const &fstfile)
     exit(EXIT_FAILURE);
   }
   readData(in);
+  Apertium::ShellUtils::check_file_complete(datafile.c_str(), in);
   fclose(in);
 
   readBil(fstfile);
-- 
2.43.0


From b5e7071f2a3aa9c333d844bf14a3bd609a50f1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:57 +0000
Subject: [PATCH 56/63] fix: output that could not be written was not reported

---
 apertium/apertium-multiple-translations.cc |  2 ++
 apertium/apertium-postlatex-raw.l          |  5 ++++-
 apertium/apertium-postlatex.l              |  5 ++++-
 apertium/apertium-prelatex.l               |  5 ++++-
 apertium/apertium_cleanstream.cc           |  2 ++
 apertium/apertium_extract_caps.cc          |  3 ++-
 apertium/apertium_interchunk.cc            |  2 ++
 apertium/apertium_postchunk.cc             |  2 ++
 apertium/apertium_posttransfer.cc          |  2 ++
 apertium/apertium_pretransfer.cc           |  2 ++
 apertium/apertium_restore_caps.cc          |  2 +-
 apertium/apertium_transfer.cc              |  2 ++
 apertium/deformat.xsl                      |  5 ++++-
 apertium/reformat.xsl                      |  5 ++++-
 apertium/shell_utils.cc                    | 10 ++++++++++
 apertium/shell_utils.h                     |  4 ++++
 apertium/tagger.cc                         | 11 ++++++++++-
 apertium/wblank-attach.cc                  |  4 ++++
 apertium/wblank-detach.cc                  |  4 ++++
 apertium/wblank-mode.cc                    |  4 ++++
 20 files changed, 73 insertions(+), 8 deletions(-)

diff --git a/apertium/apertium-multiple-translations.cc b/apertium/apertium-multiple-translations.cc
index f7a6443..406650c 100644
--- a/apertium/apertium-multiple-translations.cc
+++ b/apertium/apertium-multiple-translations.cc
@@ -14,6 +14,7 @@
  * You should have received a copy of the GNU General Public License
  * along with this program; if not, see <https://www.gnu.org/licenses/>.
  */
+#include <apertium/shell_utils.h>
 #include <apertium/transfer_mult.h>
 #include <lttoolbox/lt_locale.h>
 #include <apertium/apertium_config.h>
@@ -85,5 +86,6 @@ int main(int argc, char *argv[])
   t.read(argv[1], argv[2]);
 
   t.transfer(input, output);
+  Apertium::ShellUtils::close_output(output);
   return EXIT_SUCCESS;
 }
diff --git a/apertium/apertium-postlatex-raw.l b/apertium/apertium-postlatex-raw.l
index 9222f5a..e666a6d 100644
--- a/apertium/apertium-postlatex-raw.l
+++ b/apertium/apertium-postlatex-raw.l
@@ -275,5 +275,8 @@ int main(int argc, char *argv[])
   yylex();
 
   fclose(yyin);
-  fclose(yyout);
+  if (ferror(yyout) | fclose(yyout)) {
+    cerr << "Error: Cannot write the output." << endl;
+    exit(EXIT_FAILURE);
+  }
 }
diff --git a/apertium/apertium-postlatex.l b/apertium/apertium-postlatex.l
index 4a6bedf..8731f2b 100644
--- a/apertium/apertium-postlatex.l
+++ b/apertium/apertium-postlatex.l
@@ -359,5 +359,8 @@ int main(int argc, char *argv[])
   yylex();
 
   fclose(yyin);
-  fclose(yyout);
+  if (ferror(yyout) | fclose(yyout)) {
+    cerr << "Error: Cannot write the output." << endl;
+    exit(EXIT_FAILURE);
+  }
 }
diff --git a/apertium/apertium-prelatex.l b/apertium/apertium-prelatex.l
index de0f1b9..0590357 100644
--- a/apertium/apertium-prelatex.l
+++ b/apertium/apertium-prelatex.l
@@ -466,5 +466,8 @@ int main(int argc, char *argv[])
   yylex();
 
   fclose(yyin);
-  fclose(yyout);
+  if (ferror(yyout) | fclose(yyout)) {
+    cerr << "Error: Cannot write the output." << endl;
+    exit(EXIT_FAILURE);
+  }
 }
diff --git a/apertium/apertium_cleanstream.cc b/apertium/apertium_cleanstream.cc
index 07a4d72..c47b3f4 100644
--- a/apertium/apertium_cleanstream.cc
+++ b/apertium/apertium_cleanstream.cc
@@ -22,6 +22,7 @@
 #include <iostream>
 #include <cstdio>
 #include <list>
+#include <apertium/shell_utils.h>
 #include <lttoolbox/ustring.h>
 #include <lttoolbox/lt_locale.h>
 #include <lttoolbox/input_file.h>
@@ -106,4 +107,5 @@ main (int argc, char** argv)
   if (!spaced) {
     u_fputc('\n', output);
   }
+  Apertium::ShellUtils::close_output(output);
 }
diff --git a/apertium/apertium_extract_caps.cc b/apertium/apertium_extract_caps.cc
index 4a026e8..8310a83 100644
--- a/apertium/apertium_extract_caps.cc
+++ b/apertium/apertium_extract_caps.cc
@@ -17,6 +17,7 @@
  * 02111-1307, USA.
  */
 
+#include <apertium/shell_utils.h>
 #include <lttoolbox/ustring.h>
 #include <lttoolbox/lt_locale.h>
 #include <lttoolbox/input_file.h>
@@ -126,6 +127,6 @@ int main(int argc, char* argv[])
     u_fputc('$', output);
   }
 
-  u_fclose(output);
+  Apertium::ShellUtils::close_output(output);
   return EXIT_SUCCESS;
 }
diff --git a/apertium/apertium_interchunk.cc b/apertium/apertium_interchunk.cc
index d2ea8c7..9538889 100644
--- a/apertium/apertium_interchunk.cc
+++ b/apertium/apertium_interchunk.cc
@@ -14,6 +14,7 @@
  * You should have received a copy of the GNU General Public License
  * along with this program; if not, see <https://www.gnu.org/licenses/>.
  */
+#include <apertium/shell_utils.h>
 #include <apertium/interchunk.h>
 #include <lttoolbox/lt_locale.h>
 #include <lttoolbox/cli.h>
@@ -51,5 +52,6 @@ int main(int argc, char *argv[])
   UFILE* output = openOutTextFile(cli.get_files()[3]);
   i.read(cli.get_files()[0].c_str(), cli.get_files()[1].c_str());
   i.interchunk(input, output);
+  Apertium::ShellUtils::close_output(output);
   return EXIT_SUCCESS;
 }
diff --git a/apertium/apertium_postchunk.cc b/apertium/apertium_postchunk.cc
index ec7da0d..b02bf02 100644
--- a/apertium/apertium_postchunk.cc
+++ b/apertium/apertium_postchunk.cc
@@ -14,6 +14,7 @@
  * You should have received a copy of the GNU General Public License
  * along with this program; if not, see <https://www.gnu.org/licenses/>.
  */
+#include <apertium/shell_utils.h>
 #include <apertium/postchunk.h>
 #include <lttoolbox/lt_locale.h>
 #include <lttoolbox/cli.h>
@@ -51,6 +52,7 @@ int main(int argc, char *argv[])
   UFILE* output = openOutTextFile(cli.get_files()[3]);
   p.read(cli.get_files()[0].c_str(), cli.get_files()[1].c_str());
   p.postchunk(input, output);
+  Apertium::ShellUtils::close_output(output);
 
   return EXIT_SUCCESS;
 }
diff --git a/apertium/apertium_posttransfer.cc b/apertium/apertium_posttransfer.cc
index a19b7b7..8793a60 100644
--- a/apertium/apertium_posttransfer.cc
+++ b/apertium/apertium_posttransfer.cc
@@ -25,6 +25,7 @@
 #include <io.h>
 #include <fcntl.h>
 #endif
+#include <apertium/shell_utils.h>
 #include <lttoolbox/string_utils.h>
 #include <lttoolbox/lt_locale.h>
 #include <lttoolbox/input_file.h>
@@ -126,4 +127,5 @@ int main(int argc, char *argv[])
   }
 
   processStream(input, output, null_flush);
+  Apertium::ShellUtils::close_output(output);
 }
diff --git a/apertium/apertium_pretransfer.cc b/apertium/apertium_pretransfer.cc
index 3a32a11..cbe4c76 100644
--- a/apertium/apertium_pretransfer.cc
+++ b/apertium/apertium_pretransfer.cc
@@ -15,6 +15,7 @@
  * along with this program; if not, see <https://www.gnu.org/licenses/>.
  */
 
+#include <apertium/shell_utils.h>
 #include <apertium/pretransfer.h>
 #include <lttoolbox/cli.h>
 #include <lttoolbox/file_utils.h>
@@ -41,4 +42,5 @@ int main(int argc, char *argv[])
                 cli.get_bools()["null-flush"],
                 cli.get_bools()["no-surface-forms"],
                 cli.get_bools()["compounds"]);
+  Apertium::ShellUtils::close_output(output);
 }
diff --git a/apertium/apertium_restore_caps.cc b/apertium/apertium_restore_caps.cc
index adf32a3..43efba8 100644
--- a/apertium/apertium_restore_caps.cc
+++ b/apertium/apertium_restore_caps.cc
@@ -50,6 +50,6 @@ int main(int argc, char** argv)
 
   cr.process(input, output);
 
-  u_fclose(output);
+  Apertium::ShellUtils::close_output(output);
   return EXIT_SUCCESS;
 }
diff --git a/apertium/apertium_transfer.cc b/apertium/apertium_transfer.cc
index 4099e3b..7dbbd80 100644
--- a/apertium/apertium_transfer.cc
+++ b/apertium/apertium_transfer.cc
@@ -14,6 +14,7 @@
  * You should have received a copy of the GNU General Public License
  * along with this program; if not, see <https://www.gnu.org/licenses/>.
  */
+#include <apertium/shell_utils.h>
 #include <apertium/transfer.h>
 #include <lttoolbox/lt_locale.h>
 
@@ -209,5 +210,6 @@ int main(int argc, char *argv[])
   }
 
   t.transfer(input, output);
+  Apertium::ShellUtils::close_output(output);
   return EXIT_SUCCESS;
 }
diff --git a/apertium/deformat.xsl b/apertium/deformat.xsl
index 1601353..d125758 100644
--- a/apertium/deformat.xsl
+++ b/apertium/deformat.xsl
@@ -800,7 +800,10 @@ int main(int argc, char *argv[])
   fclose(formatfile);
 </xsl:if>
   fclose(yyin);
-  fclose(yyout);
+  if (ferror(yyout) | fclose(yyout)) {
+    cerr &lt;&lt; "Error: Cannot write the output." &lt;&lt; endl;
+    exit(EXIT_FAILURE);
+  }
 }
 </xsl:template>
 </xsl:stylesheet>
diff --git a/apertium/reformat.xsl b/apertium/reformat.xsl
index 8ce24be..a42255b 100644
--- a/apertium/reformat.xsl
+++ b/apertium/reformat.xsl
@@ -196,7 +196,10 @@ int main(int argc, char *argv[])
 
   yylex();
   fclose(yyin);
-  fclose(yyout);
+  if (ferror(yyout) | fclose(yyout)) {
+    cerr &lt;&lt; "Error: Cannot write the output." &lt;&lt; endl;
+    exit(EXIT_FAILURE);
+  }
 }
 </xsl:template>
 </xsl:stylesheet>
diff --git a/apertium/shell_utils.cc b/apertium/shell_utils.cc
index 43f4393..c485c77 100644
--- a/apertium/shell_utils.cc
+++ b/apertium/shell_utils.cc
@@ -102,5 +102,15 @@ void check_file_complete(const char *name, FILE *file) {
     exit(EXIT_FAILURE);
   }
 }
+
+void close_output(UFILE *output) {
+  u_fflush(output);
+  FILE *file = u_fgetfile(output);
+  if (fflush(file) != 0 || ferror(file)) {
+    std::cerr << "Error: Cannot write the output." << std::endl;
+    exit(EXIT_FAILURE);
+  }
+  u_fclose(output);
+}
 }
 }
diff --git a/apertium/shell_utils.h b/apertium/shell_utils.h
index 557d6a2..9df6ea7 100644
--- a/apertium/shell_utils.h
+++ b/apertium/shell_utils.h
@@ -34,6 +34,10 @@ void try_close_file(const char *metavar, const char *filename,
  * was shorter than that, or could not be read. */
 void check_file_complete(const char *name, FILE *file);
 
+/** Closes the output; ends the program with an error when a part of it
+ * could not be written. */
+void close_output(UFILE *output);
+
 }
 }
 
diff --git a/apertium/tagger.cc b/apertium/tagger.cc
index 182e2e9..95ce04f 100644
--- a/apertium/tagger.cc
+++ b/apertium/tagger.cc
@@ -570,6 +570,12 @@ MorphoStream* apertium_tagger::setup_untagged_morpho_stream(
 
 /** Implementation of flags/subcommands */
 
+static void check_written_(std::ostream &Output) {
+  if (!Output.flush()) {
+    throw Exception::Shell::FcloseError("can't write the output");
+  }
+}
+
 void apertium_tagger::g_StreamTagger(StreamTagger &StreamTagger_) {
   locale_global_();
 
@@ -591,6 +597,7 @@ void apertium_tagger::g_StreamTagger(StreamTagger &StreamTagger_) {
   if (nonoptarg < 2) {
     Stream Input(TheFlags);
     StreamTagger_.tag(Input, std::cout);
+    check_written_(std::cout);
     return;
   }
 
@@ -598,6 +605,7 @@ void apertium_tagger::g_StreamTagger(StreamTagger &StreamTagger_) {
 
   if (nonoptarg < 3) {
     StreamTagger_.tag(Input, std::cout);
+    check_written_(std::cout);
     return;
   }
 
@@ -605,6 +613,7 @@ void apertium_tagger::g_StreamTagger(StreamTagger &StreamTagger_) {
   try_open_fstream("OUTPUT", argv[optind + 2], Output_stream);
 
   StreamTagger_.tag(Input, Output_stream);
+  check_written_(Output_stream);
 }
 
 void apertium_tagger::s_StreamTaggerTrainer(
@@ -670,7 +679,7 @@ void apertium_tagger::g_FILE_Tagger(FILE_Tagger &FILE_Tagger_) {
     }
   }
   FILE_Tagger_.tagger(infile, Output);
-  u_fclose(Output);
+  close_output(Output);
 }
 
 void apertium_tagger::r_FILE_Tagger(FILE_Tagger &FILE_Tagger_) {
diff --git a/apertium/wblank-attach.cc b/apertium/wblank-attach.cc
index 570dfd8..b6af24a 100644
--- a/apertium/wblank-attach.cc
+++ b/apertium/wblank-attach.cc
@@ -184,4 +184,8 @@ int main(int argc, char* argv[]) {
 		std::cerr << "tf-apertium-spread warning: End of input reached, but had an open blank." << std::endl;
 		std::cout << blank;
 	}
+	if (!std::cout.flush()) {
+		std::cerr << "Error: Cannot write the output." << std::endl;
+		return 1;
+	}
 }
diff --git a/apertium/wblank-detach.cc b/apertium/wblank-detach.cc
index fbb1bef..b2308bf 100644
--- a/apertium/wblank-detach.cc
+++ b/apertium/wblank-detach.cc
@@ -109,4 +109,8 @@ int main(int argc, char* argv[]) {
 			had_wblank = false;
 		}
 	}
+	if (!std::cout.flush()) {
+		std::cerr << "Error: Cannot write the output." << std::endl;
+		return 1;
+	}
 }
diff --git a/apertium/wblank-mode.cc b/apertium/wblank-mode.cc
index 9935014..6d9b29b 100644
--- a/apertium/wblank-mode.cc
+++ b/apertium/wblank-mode.cc
@@ -108,4 +108,8 @@ int main(int argc, char* argv[]) {
 	} while (b != std::string::npos);
 
 	std::cout << new_mode << std::endl;
+	if (!std::cout.flush()) {
+		std::cerr << "Error: Cannot write the output." << std::endl;
+		return 1;
+	}
 }
-- 
2.43.0


From 0c9adfd01d3e7a3df3464ad92c9fb074bd15f048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:14 +0000
Subject: [PATCH 57/63] fix: tmxbuild left pieces of <ph/> at the ends of
 segments

---
 apertium/tmx_builder.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/apertium/tmx_builder.cc b/apertium/tmx_builder.cc
index c62204d..ff26552 100644
--- a/apertium/tmx_builder.cc
+++ b/apertium/tmx_builder.cc
@@ -273,7 +273,8 @@ TMXBuilder::xmlize(UString const &str)
       result = result.substr(5);
       cambio = true;
     }
-    while(result.size() > 0 && !u_isalnum(result[0]) && !u_ispunct(result[0]))
+    while(result.size() > 0 && !u_isalnum(result[0]) && !u_ispunct(result[0]) &&
+          result.compare(0, 5, "<ph/>"_u) != 0)
     {
       result = result.substr(1);
       cambio = true;
@@ -290,7 +291,8 @@ TMXBuilder::xmlize(UString const &str)
       result = result.substr(0, result.size()-5);
       cambio = true;
     }
-    while(result.size() > 0 && !u_isalnum(result[result.size()-1]) && !u_ispunct(result[result.size()-1]))
+    while(result.size() > 0 && !u_isalnum(result[result.size()-1]) && !u_ispunct(result[result.size()-1]) &&
+          (result.size() < 5 || result.compare(result.size()-5, 5, "<ph/>"_u) != 0))
     {
       result = result.substr(0, result.size()-1);
       cambio = true;
-- 
2.43.0


From 8b548657491735762bc82013807578ec91e03f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:14 +0000
Subject: [PATCH 58/63] fix: tmxbuild said nothing when its output or a
 temporary file could not be written

---
 apertium/tmx_aligner_tool.cc |  9 ++++++---
 apertium/tmx_aligner_tool.h  |  3 ++-
 apertium/tmx_builder.cc      | 25 ++++++++++++++++++++-----
 apertium/tmx_builder.h       |  2 +-
 4 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/apertium/tmx_aligner_tool.cc b/apertium/tmx_aligner_tool.cc
index 9dc7e7b..f57b553 100644
--- a/apertium/tmx_aligner_tool.cc
+++ b/apertium/tmx_aligner_tool.cc
@@ -421,7 +421,7 @@ double alignerToolWithObjects( const DictionaryItems& dictionary,
 }
 
 
-void alignerToolWithFilenames( const DictionaryItems& dictionary,
+bool alignerToolWithFilenames( const DictionaryItems& dictionary,
                  const std::string& huFilename, const std::string& enFilename,
                  const AlignParameters& alignParameters,
                  const std::string& outputFilename)
@@ -440,7 +440,7 @@ void alignerToolWithFilenames( const DictionaryItems& dictionary,
        (huSentenceListPretty.size() < enSentenceList.      size()/5) )
   {
 //    std::cerr << "Sizes differing too much. Ignoring files to avoid a rare loop bug." << std::endl;
-    return;
+    return true;
   }
 
   if (outputFilename.empty())
@@ -459,8 +459,11 @@ void alignerToolWithFilenames( const DictionaryItems& dictionary,
 
     // If you want to collect global quality information in batch mode, grep "^Quality" of stderr must do.
 //    std::cerr << "Quality\t" << outputFilename << "\t" << globalQuality << std::endl ;
+    os.close();
+    return !os.fail();
   }
 
+  return true;
 }
 
 void fillPercentParameter( Arguments& args, const std::string& argName, double& value )
@@ -690,7 +693,7 @@ int main_alignerTool(int argC, char* argV[])
         bool failed = false;
         try
         {
-          alignerToolWithFilenames( dictionary, huFilename, enFilename, alignParameters, outFilename );
+          failed = !alignerToolWithFilenames( dictionary, huFilename, enFilename, alignParameters, outFilename );
         }
         catch ( const char* errorType )
         {
diff --git a/apertium/tmx_aligner_tool.h b/apertium/tmx_aligner_tool.h
index 364ad6a..b5c6f01 100644
--- a/apertium/tmx_aligner_tool.h
+++ b/apertium/tmx_aligner_tool.h
@@ -32,7 +32,8 @@
 
 namespace TMXAligner{
 
-void alignerToolWithFilenames(const DictionaryItems& dictionary,
+/** False when the output file cannot be written. */
+bool alignerToolWithFilenames(const DictionaryItems& dictionary,
 			      const std::string& huFilename,
 			      const std::string& enFilename,
 			      const AlignParameters& alignParameters,
diff --git a/apertium/tmx_builder.cc b/apertium/tmx_builder.cc
index ff26552..51203a4 100644
--- a/apertium/tmx_builder.cc
+++ b/apertium/tmx_builder.cc
@@ -18,6 +18,7 @@
 #include <lttoolbox/string_utils.h>
 #include <apertium/tmx_aligner_tool.h>
 #include <lttoolbox/compression.h>
+#include <apertium/shell_utils.h>
 
 
 #include <cmath>
@@ -343,6 +344,7 @@ TMXBuilder::generate(string const &file1, string const &file2,
   f2.open_or_exit(file2.c_str());
 
   generateTMX(f1, f2, output);
+  Apertium::ShellUtils::close_output(output);
 }
 
 vector<UString>
@@ -458,15 +460,22 @@ TMXBuilder::printTUCond(UFILE *output, UString const &tu1, UString const &tu2, b
   }
 }
 
-void
+bool
 TMXBuilder::splitAndMove(InputFile& f1, string const &filename)
 {
   UFILE* stream = u_fopen(filename.c_str(), "w", NULL, NULL);
+  if (!stream) {
+    return false;
+  }
   vector<UString> fichero_por_cadenas = sentenceList(f1);
   for (auto& it : fichero_por_cadenas) {
     u_fprintf(stream, "%S\n", it.c_str());
   }
+  u_fflush(stream);
+  FILE* file = u_fgetfile(stream);
+  bool written = (fflush(file) == 0 && !ferror(file));
   u_fclose(stream);
+  return written;
 }
 
 void
@@ -476,9 +485,7 @@ TMXBuilder::outputTU(InputFile& f1, InputFile& f2, UFILE* output)
   string right = tmpnam(NULL);
   string out = tmpnam(NULL);
 
-  splitAndMove(f1, left);
-
-  splitAndMove(f2, right);
+  bool written = splitAndMove(f1, left) && splitAndMove(f2, right);
 
   TMXAligner::DictionaryItems dict;
   AlignParameters ap;
@@ -487,7 +494,15 @@ TMXBuilder::outputTU(InputFile& f1, InputFile& f2, UFILE* output)
   ap.utfCharCountingMode = false;
   ap.realignType=AlignParameters::NoRealign;
 
-  TMXAligner::alignerToolWithFilenames(dict, left, right, ap, out);
+  written = written && TMXAligner::alignerToolWithFilenames(dict, left, right, ap, out);
+
+  if (!written) {
+    cerr << "Error: Cannot write a temporary file." << endl;
+    unlink(left.c_str());
+    unlink(right.c_str());
+    unlink(out.c_str());
+    exit(EXIT_FAILURE);
+  }
 
   InputFile stream;
   stream.open(out.c_str());
diff --git a/apertium/tmx_builder.h b/apertium/tmx_builder.h
index 2aca2de..28cf2e1 100644
--- a/apertium/tmx_builder.h
+++ b/apertium/tmx_builder.h
@@ -64,7 +64,7 @@ private:
   static bool isRemovablePunct(UChar32 const &c);
   bool similar(UString const &s1, UString const &s2);
 
-  void splitAndMove(InputFile& file, string const &filename);
+  bool splitAndMove(InputFile& file, string const &filename);
 public:
   TMXBuilder(UString const &l1, UString const &l2);
   ~TMXBuilder();
-- 
2.43.0


From 0c3397fa9655fb7caae46726ac01dc709c4bb0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:14 +0000
Subject: [PATCH 59/63] fix: tmxbuild left out every pair of segments with text
 on both sides

---
 apertium/tmx_builder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apertium/tmx_builder.cc b/apertium/tmx_builder.cc
index 51203a4..e4365a8 100644
--- a/apertium/tmx_builder.cc
+++ b/apertium/tmx_builder.cc
@@ -776,7 +776,7 @@ TMXBuilder::printTU(UFILE* output, UString const &tu1, UString const &tu2) const
   UString tu1_filtered = filter(tu1);
   UString tu2_filtered = filter(tu2);
 
-  if (tu1_filtered.empty() && !tu2_filtered.empty()) {
+  if (!tu1_filtered.empty() && !tu2_filtered.empty()) {
     u_fprintf(output, "<tu>\n  <tuv xml:lang=\"%S\"><seg>%S</seg></tuv>\n",
               lang1.c_str(), tu1_filtered.c_str());
 
-- 
2.43.0


From 037780ec1f15311d61dd295f37600e718d335bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:14 +0000
Subject: [PATCH 60/63] fix: skip-on-error dropped the sentence before one
 whose first word differs, or crashed

---
 apertium/sentence_stream.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/apertium/sentence_stream.cc b/apertium/sentence_stream.cc
index 19c8748..b010b78 100644
--- a/apertium/sentence_stream.cc
+++ b/apertium/sentence_stream.cc
@@ -123,8 +123,11 @@ TrainingCorpus::TrainingCorpus(Stream &tagged, Stream &untagged,
       }
 
       skipped++;
-      training_sentence->first.clear();
-      training_sentence->second.clear();
+      if (!was_sentence_end) {
+        // what has been read of this sentence; the one before it is whole
+        training_sentence->first.clear();
+        training_sentence->second.clear();
+      }
 
       std::cerr << "fast forward\n";
       bool tagged_ended = contToEndOfSent(tagged, tagged_token, tagged_line);
-- 
2.43.0


From 76a8698221890ee19825862640fd573502303fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:36 +0000
Subject: [PATCH 61/63] fix: tagger-readwords said nothing when its output
 could not be written

---
 apertium/apertium_tagger_readwords.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/apertium/apertium_tagger_readwords.cc b/apertium/apertium_tagger_readwords.cc
index 0d1f0af..e41a891 100644
--- a/apertium/apertium_tagger_readwords.cc
+++ b/apertium/apertium_tagger_readwords.cc
@@ -194,4 +194,10 @@ int main(int argc, char* argv[]) {
   TaggerWord::setArrayTags(tagger_data_hmm.getArrayTags());
 
   readwords(corpus_length);
+
+  cout.flush();
+  if (!cout) {
+    cerr<<"Error: Cannot write the output.\n";
+    exit(EXIT_FAILURE);
+  }
 }
-- 
2.43.0


From 5d7c7bb7dc12d63ff6bcfce6c81b146dbb462664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:19 +0000
Subject: [PATCH 62/63] fix: perceptron-trace and adapt-docx said nothing when
 their output could not be written

---
 apertium/adapt_docx.cc                | 5 +++++
 apertium/apertium_perceptron_trace.cc | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/apertium/adapt_docx.cc b/apertium/adapt_docx.cc
index d00db05..2f0a98f 100644
--- a/apertium/adapt_docx.cc
+++ b/apertium/adapt_docx.cc
@@ -507,6 +507,11 @@ int main(int argc, char *argv[])
 		}
 	}
 	cout << '\0' << flush;
+	if (!cout) {
+		cerr << "error: could not write the output" << endl;
+		return EXIT_FAILURE;
+	}
+	return EXIT_SUCCESS;
 }
 
 /* vim: set noet ts=4 sw=4: */
diff --git a/apertium/apertium_perceptron_trace.cc b/apertium/apertium_perceptron_trace.cc
index e2c3299..c23d32b 100644
--- a/apertium/apertium_perceptron_trace.cc
+++ b/apertium/apertium_perceptron_trace.cc
@@ -98,6 +98,10 @@ int perceptron_trace(int argc, char* argv[])
                << "and the resulting score. Useful for interactively "
                << "designing feature sets.\n";
   }
+  if (!std::cout.flush()) {
+    std::cerr << "Error: Unable to write the output." << std::endl;
+    return 1;
+  }
   return 0;
 }
 
-- 
2.43.0


From 189db9c098bd0bbf1f9ae3bbe23744ab6591aa56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:35 +0000
Subject: [PATCH 63/63] fix: the HMM tagger lost track of long runs of
 ambiguous words

After some 300 ambiguous words in a row the probability of every path
was 0, and the last tag in numerical order won from there on.
---
 apertium/hmm.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/apertium/hmm.cc b/apertium/hmm.cc
index d79fcd5..6756abc 100644
--- a/apertium/hmm.cc
+++ b/apertium/hmm.cc
@@ -30,6 +30,7 @@
 #include <unistd.h>
 #include <vector>
 #include <algorithm>
+#include <cmath>
 #include <lttoolbox/string_utils.h>
 #include <apertium/file_morpho_stream.h>
 
@@ -731,6 +732,16 @@ HMM::tagger(MorphoStream &morpho_stream, UFILE* Output) {
       }
     }
 
+    //Without this, a long run of ambiguous words would have probability 0,
+    //whatever their tags; a power of two changes no comparison
+    double top = *max_element(alpha[nwpend%2].begin(), alpha[nwpend%2].end());
+    if (top > 0 && top < 1e-150) {
+      for (auto& p : alpha[nwpend%2]) {
+	p = ldexp(p, 400);
+      }
+      loli += 400*log(2.0);
+    }
+
     //Backtracking
     if (tags.size() == 1) {
       tag = *tags.begin();
-- 
2.43.0

