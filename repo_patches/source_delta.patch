From bbbe3c4133111e69b97470f24745343c2c2d9bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 001/115] fix: keep the tabs attribute text alive while a unit
 start tag is written

---
 src/parser/srcMLOutput.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/srcMLOutput.cpp b/src/parser/srcMLOutput.cpp
index bb97f32..a4de02e 100644
--- a/src/parser/srcMLOutput.cpp
+++ b/src/parser/srcMLOutput.cpp
@@ -329,7 +329,9 @@ void srcMLOutput::startUnit(const char* language, const char* revision,
 
     // setup for tabs if used
     std::string tabattribute;
+    std::string tabvalue;
     if (isoption(options, SRCML_OPTION_POSITION)) {
+        tabvalue = std::to_string(tabsize);
         tabattribute = namespaces[POS].getPrefix();
         if (!tabattribute.empty())
             tabattribute += ":";
@@ -369,7 +371,7 @@ void srcMLOutput::startUnit(const char* language, const char* revision,
         { UNIT_ATTRIBUTE_VERSION, version },
 
         // position tab setting
-        { tabattribute.c_str(), isoption(options, SRCML_OPTION_POSITION) ? std::to_string(tabsize).c_str() : 0 },
+        { tabattribute.c_str(), isoption(options, SRCML_OPTION_POSITION) ? tabvalue.c_str() : 0 },
 
         // timestamp attribute
         { UNIT_ATTRIBUTE_TIMESTAMP, timestamp },
-- 
2.43.0


From d1d68515b511e65980ea74afec6c486180fa678d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 002/115] fix: position markup follows the current archive, not
 the first one used by the thread

---
 src/parser/srcMLOutput.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser/srcMLOutput.cpp b/src/parser/srcMLOutput.cpp
index a4de02e..1184d7e 100644
--- a/src/parser/srcMLOutput.cpp
+++ b/src/parser/srcMLOutput.cpp
@@ -503,9 +503,9 @@ void srcMLOutput::addPosition(const antlr::RefToken& token) {
     if (stoken->endline < stoken->getLine() || (stoken->endline == stoken->getLine() && stoken->endcolumn < stoken->getColumn()))
             return;
 
-    thread_local const std::string& prefix = namespaces[POS].prefix;
-    thread_local const std::string startAttribute = " " + prefix + (!prefix.empty() ? ":" : "") + "start=\"";
-    thread_local const std::string endAttribute   = " " + prefix + (!prefix.empty() ? ":" : "") + "end=\"";
+    const std::string& prefix = namespaces[POS].prefix;
+    const std::string startAttribute = " " + prefix + (!prefix.empty() ? ":" : "") + "start=\"";
+    const std::string endAttribute   = " " + prefix + (!prefix.empty() ? ":" : "") + "end=\"";
 
     // highly optimized as this is output for every start tag
 
@@ -537,7 +537,7 @@ void srcMLOutput::processToken(const antlr::RefToken& token, const char* name, c
     if (name[0] == 0)
         return;
 
-    thread_local bool isposition = isoption(options, SRCML_OPTION_POSITION);
+    const bool isposition = isoption(options, SRCML_OPTION_POSITION);
 
     if (isstart(token) || isempty(token)) {
 
-- 
2.43.0


From ae9705f2dabd0405f376b3e2bcab7af6730d0521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:37 +0000
Subject: [PATCH 003/115] fix: collect unit text from the parser event, not
 from input that libxml2 may have discarded

---
 src/libsrcml/sax2_srcsax_handler.cpp | 56 ++++++++++++++--------------
 1 file changed, 29 insertions(+), 27 deletions(-)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index e2ca856..6c4ed61 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -620,12 +620,6 @@ void start_element(void* ctx, const xmlChar* localname, const xmlChar* /* prefix
 
     if (state->collect_unit_body) {
 
-        // end previous start element
-        if (state->base[0] == '>') {
-            state->unitsrcml.append(1, '>');
-            state->base += 1;
-        }
-
         auto srcmllen = ctxt->input->cur - state->base;
         if (srcmllen < 0) {
             return;
@@ -650,6 +644,12 @@ void start_element(void* ctx, const xmlChar* localname, const xmlChar* /* prefix
     }
     state->base = ctxt->input->cur;
 
+    // end this start tag now, since libxml2 may discard this part of the buffer before the next event
+    if (state->collect_unit_body && state->base[0] == '>') {
+        state->unitsrcml.append(1, '>');
+        state->base += 1;
+    }
+
     SRCSAX_DEBUG_END(localname);
 }
 
@@ -782,27 +782,20 @@ void characters_unit(void* ctx, const xmlChar* ch, int len) {
 
     update_ctx(ctx);
 
-    // end previous start element
-    if (state->base[0] == '>') {
-        state->unitsrcml.append(1, '>');
-        state->base += 1;
-    }
+    if (state->base >= ctxt->input->base && state->base < ctxt->input->cur && state->base[0] == '&') {
 
-    // libxml2 handles things in the background differently for whitespace and escaped characters
-    // using a different buffer. For POS (Plain Old Strings), it uses the original buffer
-    if (state->base == ctxt->input->cur) {
-
-        // plain old strings
-        state->unitsrcml.append((const char*) ch, len);
-
-        // libxml2 passes ctxt->input->cur as ch, so then must increment to len
-        state->base = ctxt->input->cur + len;
+        // reference, e.g., &lt;, has to be kept as it is
+        state->unitsrcml.append((const char*) state->base, ctxt->input->cur - state->base);
+        state->base = ctxt->input->cur;
 
     } else {
 
-        // whitespace and escaped characters
-        state->unitsrcml.append((const char*) state->base, ctxt->input->cur - state->base);
-        state->base = ctxt->input->cur;
+        // plain text is the same in the XML. Note that for long text libxml2 may have already
+        // discarded the start of it from the input buffer, so it can not be taken from there
+        state->unitsrcml.append((const char*) ch, len);
+
+        // libxml2 may not have moved past (all of) the text yet
+        state->base = std::max(state->base + len, ctxt->input->cur);
     }
 
     SRCML_DEBUG("UNIT", state->unitsrcml.c_str(), state->unitsrcml.size());
@@ -871,8 +864,10 @@ void cdata_block(void* ctx, const xmlChar* value, int len) {
     // append CDATA
     if (state->collect_unit_body) {
 
-        // xml can get raw
-        state->unitsrcml.append((const char*) state->base, ctxt->input->cur - state->base);
+        // start of long CDATA may no longer be in the input buffer
+        state->unitsrcml.append("<![CDATA[");
+        state->unitsrcml.append((const char*) value, len);
+        state->unitsrcml.append("]]>");
 
         // CDATA is character data
         state->unitsrc.append((const char*) value, len);
@@ -892,7 +887,7 @@ void cdata_block(void* ctx, const xmlChar* value, int len) {
  * Called when a processing instruction has been parsed.
  * Immediately calls supplied handlers function.
  */
-void processing_instruction(void* ctx, const xmlChar* /* target */, const xmlChar* /* data */) {
+void processing_instruction(void* ctx, const xmlChar* target, const xmlChar* data) {
 
     auto ctxt = (xmlParserCtxtPtr) ctx;
     if (ctxt == nullptr)
@@ -907,7 +902,14 @@ void processing_instruction(void* ctx, const xmlChar* /* target */, const xmlCha
 
     if (state->collect_unit_body) {
 
-        state->unitsrcml.append((const char*) state->base, ctxt->input->cur - state->base);
+        // start of a long processing instruction may no longer be in the input buffer
+        state->unitsrcml.append("<?");
+        state->unitsrcml.append((const char*) target);
+        if (data) {
+            state->unitsrcml.append(" ");
+            state->unitsrcml.append((const char*) data);
+        }
+        state->unitsrcml.append("?>");
 
         state->base = ctxt->input->cur;
     }
-- 
2.43.0


From c7b034d429625f784f3c311fa8bafbb72b7eca39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:29 +0000
Subject: [PATCH 004/115] fix: a DEL character no longer ends the markup of the
 rest of the source

---
 src/parser/TextLexer.g | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/TextLexer.g b/src/parser/TextLexer.g
index 604d049..a4f52c4 100644
--- a/src/parser/TextLexer.g
+++ b/src/parser/TextLexer.g
@@ -217,6 +217,7 @@ CONTROL_CHAR :
     (
         '\000'..'\010' |
         '\013'..'\014' |
-        '\016'..'\037'
+        '\016'..'\037' |
+        '\177'
     )
 ;
-- 
2.43.0


From b1f1e86c3384f5eb47ce2e54fe3b07323674394c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:48 +0000
Subject: [PATCH 005/115] fix: extract source and revision of a unit without
 limit on nesting and with the text after the last tag

---
 src/libsrcml/unit_utilities.cpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/libsrcml/unit_utilities.cpp b/src/libsrcml/unit_utilities.cpp
index a3ca02e..f27bf86 100644
--- a/src/libsrcml/unit_utilities.cpp
+++ b/src/libsrcml/unit_utilities.cpp
@@ -92,6 +92,10 @@ std::string extract_revision(const char* srcml, int size, int revision, bool tex
 
         // skip to end of tag
         p = (const char*) memchr(p, '>', size - (p - srcml));
+        if (p == nullptr) {
+            lp = srcml + size;
+            break;
+        }
         ++p;
 
         if (strncmp(sp + 1, DIFF_PREFIX, strlen(DIFF_PREFIX)) == 0) {
@@ -107,7 +111,8 @@ std::string extract_revision(const char* srcml, int size, int revision, bool tex
             }
         }
         else if (*(sp + 1) == '/' && strncmp(sp + 2, DIFF_PREFIX, strlen(DIFF_PREFIX)) == 0) {
-            mode.pop();
+            if (mode.size() > 1)
+                mode.pop();
         }
         else {
             if (inmode && !text_only)
@@ -117,6 +122,10 @@ std::string extract_revision(const char* srcml, int size, int revision, bool tex
         lp = p;
     }
 
+    // output text after the last tag
+    if (mode.top() == COMMON || (revision == 0 && mode.top() == DELETE) || (revision == 1 && mode.top() == INSERT))
+        news.append(lp, srcml + size - lp);
+
     return news;
 }
 
@@ -152,7 +161,7 @@ std::string extract_src(const std::string& srcml, boost::optional<int> revision)
 
     charactersax.startElementNs = [](void* ctx, const xmlChar* localname, const xmlChar* /* prefix */, const xmlChar* URI,
                      int /* nb_namespaces */, const xmlChar** /* namespaces */,
-                     int /* nb_attributes */, int /* nb_defaulted */, const xmlChar** attributes) {
+                     int nb_attributes, int /* nb_defaulted */, const xmlChar** attributes) {
 
         auto ctxt = (xmlParserCtxtPtr) ctx;
         if (ctxt == nullptr)
@@ -161,7 +170,12 @@ std::string extract_src(const std::string& srcml, boost::optional<int> revision)
         if (scontext == nullptr)
             return;
 
+        if (URI == nullptr)
+            return;
+
         if (strcmp((const char*) localname, "escape") == 0 && strcmp((const char*) URI, SRCML_SRC_NS_URI) == 0) {
+            if (nb_attributes < 1)
+                return;
             std::string svalue((const char *)attributes[0 * 5 + 3], attributes[0 * 5 + 4] - attributes[0 * 5 + 3]);
 
             char value = (int)strtol(svalue.c_str(), NULL, 0);
@@ -180,6 +194,12 @@ std::string extract_src(const std::string& srcml, boost::optional<int> revision)
     };
 
     xmlParserCtxtPtr context = xmlCreateMemoryParserCtxt(srcml.c_str(), (int) srcml.size());
+    if (context == nullptr)
+        return scontext.s;
+
+    // no limit on the nesting of elements or length of text
+    xmlCtxtUseOptions(context, XML_PARSE_HUGE);
+
     auto save_private = context->_private;
     context->_private = &scontext;
     auto save_sax = context->sax;
-- 
2.43.0


From efe7985d57617b827a1625244fac75f139fd35db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:48 +0000
Subject: [PATCH 006/115] fix: unparse reports failed writes, the full size,
 and only the source of the requested srcDiff revision

---
 src/libsrcml/srcml_unit.cpp | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index d4b764d..eef9b2d 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -698,16 +698,22 @@ static int srcml_unit_unparse_internal(struct srcml_unit* unit, std::function<xm
         unit->src = extract_src(unit->srcml);
     }
 
+    // for a srcdiff revision, only the source of that revision
+    const bool isrevision = unit->archive->revision_number && issrcdiff(unit->archive->namespaces);
+    const std::string revisionsrc = isrevision ?
+        extract_src(extract_revision(unit->srcml.c_str(), (int) unit->srcml.size(), (int) *unit->archive->revision_number)) : "";
+    const std::string& src = isrevision ? revisionsrc : *unit->src;
+
     // if EOL is not auto, then need to convert for
     if (unit->eol == SOURCE_OUTPUT_EOL_AUTO) {
-        xmlOutputBufferWrite(output_handler.get(), (int) unit->src->size(), unit->src->c_str());
+        if (xmlOutputBufferWrite(output_handler.get(), (int) src.size(), src.c_str()) < 0)
+            return SRCML_STATUS_IO_ERROR;
     } else {
 
         // convert to the given eol
         std::string neol(0, ' ');
-        neol.reserve(unit->src->size());
+        neol.reserve(src.size());
 
-        const std::string& src = *unit->src;
         for (size_t i = 0; i < src.size(); ++i) {
             if (src[i] != '\n') {
                 neol += src[i];
@@ -725,9 +731,14 @@ static int srcml_unit_unparse_internal(struct srcml_unit* unit, std::function<xm
             }
         }
 
-        xmlOutputBufferWrite(output_handler.get(), (int) neol.size(), neol.c_str());
+        if (xmlOutputBufferWrite(output_handler.get(), (int) neol.size(), neol.c_str()) < 0)
+            return SRCML_STATUS_IO_ERROR;
     }
 
+    // output may only be written when it is closed
+    if (xmlOutputBufferClose(output_handler.release()) < 0)
+        return SRCML_STATUS_IO_ERROR;
+
     return SRCML_STATUS_OK;
 }
 
@@ -777,15 +788,18 @@ int srcml_unit_unparse_memory(struct srcml_unit* unit, char** src_buffer, size_t
         buffer = xmlBufferCreate();
         return xmlOutputBufferCreateBuffer(buffer, handler);
     });
-    if (status != SRCML_STATUS_OK)
+    if (status != SRCML_STATUS_OK) {
+        xmlBufferFree(buffer);
         return status;
+    }
 
+    // text may include null characters, so the length has to be the one of the buffer
+    auto size = xmlBufferLength(buffer);
     (*src_buffer) = (char *) xmlBufferDetach(buffer);
+    xmlBufferFree(buffer);
     if (!(*src_buffer))
         return SRCML_STATUS_ERROR;
-    *src_size = strlen(*src_buffer);
-
-    xmlBufferFree(buffer);
+    *src_size = size;
 
     return SRCML_STATUS_OK;
 }
-- 
2.43.0


From 929abce52fece8f16f3d0a712d89c1e84309760d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:02 +0000
Subject: [PATCH 007/115] fix: no endless loop for an array index with contents
 that are not an expression (C#, Objective-C)

---
 src/parser/srcMLParser.g | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index f89e6dc..1a824ba 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -4629,6 +4629,9 @@ type_identifier_count_check returns [int type_count] {
     --inputState->guessing;
 } :;
 
+// sets to a particular token
+set_token[antlr::RefToken& variable, antlr::RefToken value] { variable = value; } :;
+
 // core functionality for type identifier count check
 type_identifier_count_check_core returns [int type_count] { type_count = 0; ENTRY_DEBUG } :
 
@@ -5003,11 +5006,14 @@ variable_identifier_array_grammar_sub[bool& iscomplex] { CompleteElement element
 ;
 
 // contents of array index
-variable_identifier_array_grammar_sub_contents{ bool found_expr = false; bool is_expr = false; ENTRY_DEBUG } :
+variable_identifier_array_grammar_sub_contents{ bool found_expr = false; bool is_expr = false; antlr::RefToken last; ENTRY_DEBUG } :
         { !inLanguage(LANGUAGE_CSHARP) && !inLanguage(LANGUAGE_OBJECTIVE_C) }? complete_expression |
 
         { inLanguage(LANGUAGE_CSHARP) || inLanguage(LANGUAGE_OBJECTIVE_C) }?
-            (options { greedy = true; } : { LA(1) != RBRACKET }?
+            // stop when there is no progress, i.e., not an expression, including at the end of the file
+            (options { greedy = true; } : { LA(1) != RBRACKET && LT(1) != last }?
+                set_token[last, LT(1)]
+
                 ({ /* stop warning */ LA(1) == COMMA }? { if (!found_expr) { empty_element(SEXPRESSION, true); }
 
 
-- 
2.43.0


From 0cd32e10282d11dfda7f35461b80d606c63a30bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:35 +0000
Subject: [PATCH 008/115] fix: do not access an empty token buffer when output
 is paused

---
 src/parser/StreamMLParser.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser/StreamMLParser.hpp b/src/parser/StreamMLParser.hpp
index d569eab..2db037c 100644
--- a/src/parser/StreamMLParser.hpp
+++ b/src/parser/StreamMLParser.hpp
@@ -838,6 +838,11 @@ private:
 
     /** abstract method for pausing the output of tokens */
     void pauseStream() final {
+
+        // nothing to hold back
+        if (output().empty())
+            return;
+
         pausetoken = *CurrentToken();
         paused = true;
     }
@@ -856,7 +861,7 @@ private:
     /** abstract method for replacing start of stream with a NOP */
     void nopStreamStart() final {
 
-        if (!paused)
+        if (!paused || output().empty())
             return;
 
         if (pausetoken->getType() != output().back()->getType())
-- 
2.43.0


From ebb6f0b65b8454814b547a34665d17e4e0340b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:58 +0000
Subject: [PATCH 009/115] fix: only remove the markup of an unterminated
 expression statement together with its own end

---
 src/parser/StreamMLParser.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/parser/StreamMLParser.hpp b/src/parser/StreamMLParser.hpp
index 2db037c..1de4624 100644
--- a/src/parser/StreamMLParser.hpp
+++ b/src/parser/StreamMLParser.hpp
@@ -867,6 +867,19 @@ private:
         if (pausetoken->getType() != output().back()->getType())
             return;
 
+        // last token must be the end of the paused element, and not of another element of that type
+        int depth = 0;
+        auto match = output().rbegin();
+        for (; match != output().rend(); ++match) {
+            if ((*match)->getType() != pausetoken->getType() || isempty(*match))
+                continue;
+            depth += isstart(*match) ? -1 : 1;
+            if (depth <= 0)
+                break;
+        }
+        if (match == output().rend() || *match != pausetoken)
+            return;
+
         pausetoken->setType(SNOP);
         output().back()->setType(SNOP);
 
-- 
2.43.0


From f94222a6df6c8d4d37991d01cb84a09ec722f9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:42 +0000
Subject: [PATCH 010/115] fix: no endless loop when output is paused and the
 parser makes no progress

---
 src/parser/StreamMLParser.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parser/StreamMLParser.hpp b/src/parser/StreamMLParser.hpp
index 1de4624..ed6e67b 100644
--- a/src/parser/StreamMLParser.hpp
+++ b/src/parser/StreamMLParser.hpp
@@ -671,8 +671,15 @@ private:
         if (tb.empty())
             consume();
 
-        while (paused)
+        // to prevent infinite loops, consume is called if no progress is made
+        while (paused) {
+            auto curtoken = LT(1);
+            auto cursize = tb.size();
+            auto curmodes = srcMLParser::size();
             fillTokenBuffer();
+            if (paused && LT(1) == curtoken && tb.size() == cursize && srcMLParser::size() == curmodes)
+                consume();
+        }
 
         // to calculate end position, need to buffer until end token in reached
         // to prevent infinite loops, consume is called if no progress is made on the
-- 
2.43.0


From cd4c1730257d7acaf13c48c8405aff697bbd8b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:07 +0000
Subject: [PATCH 011/115] fix: no control characters in the delimiter of a raw
 string literal

---
 src/parser/CommentTextLexer.g | 2 +-
 src/parser/TextLexer.g        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/CommentTextLexer.g b/src/parser/CommentTextLexer.g
index 36ed6ba..cd2023c 100644
--- a/src/parser/CommentTextLexer.g
+++ b/src/parser/CommentTextLexer.g
@@ -253,5 +253,5 @@ protected
 RSTRING_DELIMITER:
     { delimiter = ""; }
     (options { greedy = true; } : { delimiter.size() < delimiter1.size() }? { delimiter += LA(1); } 
-        ~('(' | ')' | '\\' | '\n' | ' ' | '\t' ))*
+        ~('\000'..' ' | '\177' | '(' | ')' | '\\'))*
 ;
diff --git a/src/parser/TextLexer.g b/src/parser/TextLexer.g
index a4f52c4..ab2bd32 100644
--- a/src/parser/TextLexer.g
+++ b/src/parser/TextLexer.g
@@ -97,7 +97,7 @@ RAW_STRING_START :
 protected
 RSTRING_DELIMITER:
     { delimiter = ""; }
-    (options { greedy = true; } : { delimiter += LA(1); } ~('(' | ')' | '\\' | '\n' | ' ' | '\t' ))*
+    (options { greedy = true; } : { delimiter += LA(1); } ~('\000'..' ' | '\177' | '(' | ')' | '\\'))*
 ;
 
 CHAR_START :
-- 
2.43.0


From 293d6ccc8b30d21a50697da08b58978739c36512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:00 +0000
Subject: [PATCH 012/115] fix: an incomplete preprocessor expression at the end
 of the source leaves no half-written name element

In the recovery of cpp_expression the end-of-file token was consumed into a
name element, which ended the output in the middle of a start tag
(e.g. #if " at the end of the source).
---
 src/parser/srcMLParser.g | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index 1a824ba..d3f72e6 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -9624,10 +9624,15 @@ cpp_expression[CALL_TYPE type = NOCALL] { ENTRY_DEBUG } :
 exception
 catch[...] {
 
-        startNewMode(MODE_LOCAL);
-        startElement(SNAME);
-        consume();
-        endMode();
+        // the end of the source is not a part of the expression
+        if (LA(1) != 1 /* EOF */) {
+
+            startNewMode(MODE_LOCAL);
+            startElement(SNAME);
+            consume();
+            endMode();
+
+        }
 
 }
 
-- 
2.43.0


From bd14b216f5b3098b6b465c06c831080d6a7dc347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:00 +0000
Subject: [PATCH 013/115] fix: a malformed call of a registered macro no longer
 loses the rest of the source

An exception while parsing the macro call left the parser's output redirected
to the preprocessor buffers for good: the rest of the source was lost, or an
empty token buffer was accessed.
---
 src/parser/StreamMLParser.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/StreamMLParser.hpp b/src/parser/StreamMLParser.hpp
index ed6e67b..4c222ff 100644
--- a/src/parser/StreamMLParser.hpp
+++ b/src/parser/StreamMLParser.hpp
@@ -549,7 +549,11 @@ private:
             pskiptb = &skippretb;
 
             // parse macro_call
-            srcMLParser::macro_pattern_call();
+            try {
+
+                srcMLParser::macro_pattern_call();
+
+            } catch(...) {}
 
             // flush remaining whitespace from preprocessor handling onto preprocessor buffer
             pretb.insert(pretb.end(), std::make_move_iterator(skippretb.begin()), std::make_move_iterator(skippretb.end()));
-- 
2.43.0


From c1beeca55aacdb2762053b9ac160ba81ba7ca301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:08 +0000
Subject: [PATCH 014/115] fix: decode source in chunks without losing or
 altering characters

An incomplete multibyte sequence at the end of a read dropped the whole
chunk, as did an invalid one; a BOM split over reads or of a specific byte
order was not recognized; characters held by the encoder at the end of the
input were lost; a read error or end of input was read again; and a close
callback was called even when not given.
---
 src/parser/UTF8CharBuffer.cpp | 341 ++++++++++++++++++++++------------
 src/parser/UTF8CharBuffer.hpp |  26 ++-
 2 files changed, 242 insertions(+), 125 deletions(-)

diff --git a/src/parser/UTF8CharBuffer.cpp b/src/parser/UTF8CharBuffer.cpp
index c45cf68..ea17367 100644
--- a/src/parser/UTF8CharBuffer.cpp
+++ b/src/parser/UTF8CharBuffer.cpp
@@ -23,6 +23,7 @@
 #include <UTF8CharBuffer.hpp>
 
 #include <sha1utilities.hpp>
+#include <algorithm>
 #include <iostream>
 #include <fcntl.h>
 #include <iterator>
@@ -156,6 +157,9 @@ UTF8CharBuffer::UTF8CharBuffer(const char* ifilename, const char* encoding, bool
         delete static_cast<Context<int>*>(context);
         return close(fd);
     };
+
+    // the encoding is determined by the start of the data
+    insize = readChars();
 }
 
 /**
@@ -181,9 +185,10 @@ UTF8CharBuffer::UTF8CharBuffer(const char* c_buffer, size_t buffer_size, const c
     // copy the data from the user parameter
     // would be nice to use directly, but would have to verify it is not deallocated after constructor call
     raw.insert(raw.begin(), c_buffer, c_buffer + buffer_size);
-    insize = raw.size();
+    inputEnd = true;
+    hashRaw(0);
 
-    // since we already have all the data, need to hash and perform encoding
+    // since we already have all the data, perform encoding
     insize = readChars();
 }
 
@@ -212,6 +217,9 @@ UTF8CharBuffer::UTF8CharBuffer(FILE* file, const char* encoding, bool hashneeded
             return (size_t) result;
     };
     sio.close_callback = [](void*) -> int { return 0; };
+
+    // the encoding is determined by the start of the data
+    insize = readChars();
 }
 
 /**
@@ -237,6 +245,9 @@ UTF8CharBuffer::UTF8CharBuffer(int fd, const char* encoding, bool hashneeded, bo
         delete static_cast<Context<int>*>(context);
         return 0;
     };
+
+    // the encoding is determined by the start of the data
+    insize = readChars();
 }
 
 /**
@@ -258,155 +269,248 @@ UTF8CharBuffer::UTF8CharBuffer(void* context, srcml_read_callback read_callback,
     sio.context = context;
     sio.read_callback = read_callback;
     sio.close_callback = close_callback;
+
+    // the encoding is determined by the start of the data
+    insize = readChars();
 }
 
 /**
- * readChars
+ * readRaw
  *
- * Read and process the next sequence of data.
+ * Append the next data from the input to the raw characters.
+ * After the end of the input, or an error, the input is not read again.
+ *
+ * @returns if any data was read
  */
-ssize_t UTF8CharBuffer::readChars() {
+bool UTF8CharBuffer::readRaw() {
+
+    if (inputEnd)
+        return false;
+
+    // raw may still have an incomplete multibyte sequence from the previous read
+    const size_t oldsize = raw.size();
+    raw.resize(oldsize + SRCBUFSIZE);
+
+    // use the provided callback
+    ssize_t readsize = sio.read_callback ? sio.read_callback(sio.context, raw.data() + oldsize, SRCBUFSIZE) : 0;
+    if (readsize < 0)
+        fprintf(stderr, "Error reading: %s\n", strerror(errno));
+    if (readsize <= 0 || readsize > (ssize_t) SRCBUFSIZE) {
+        inputEnd = true;
+        readsize = 0;
+    }
 
-    // read more data into raw (may already be data in there)
-    if (insize == 0 || pos >= insize) {
+    raw.resize(oldsize + readsize);
 
-        // create room for the raw characters
-        raw.resize(SRCBUFSIZE);
+    hashRaw(oldsize);
 
-        // use the provided callback
-        // the entire input buffer may not be available because of incomplete multi-byte sequences
-        // from a previous read
-        ssize_t insize = sio.read_callback ? (int) sio.read_callback(sio.context, raw.data() + inbytesleft, raw.size() - inbytesleft) : 0;
-        if (insize == -1) {
-            fprintf(stderr, "Error reading: %s", strerror(errno));
-            return 0;
-        }
+    return readsize > 0;
+}
 
-        // EOF
-        if (insize == 0) {
-            return 0;
-        }
+/**
+ * hashRaw
+ * @param offset start of the new data in the raw characters
+ *
+ * Add newly read data to the hash (if needed)
+ */
+void UTF8CharBuffer::hashRaw(size_t offset) {
 
-        // new size is the number of bytes read in, plus any incomplete multibyte sequences from previous
-        raw.resize(insize + inbytesleft);
-    }
+    if (!hashneeded || offset >= raw.size())
+        return;
 
-    // hash only the read data, not the inbytesleft (from previous call)
-    if (hashneeded) {
 #ifdef _MSC_BUILD
-        CryptHashData(crypt_hash, (BYTE *)raw.data() + inbytesleft, (DWORD) (raw.size() - inbytesleft), 0);
+    CryptHashData(crypt_hash, (BYTE *)raw.data() + offset, (DWORD) (raw.size() - offset), 0);
 #else
-        SHA1_Update(&ctx, raw.data() + inbytesleft, (SHA_LONG) (raw.size() - inbytesleft));
+    SHA1_Update(&ctx, raw.data() + offset, raw.size() - offset);
 #endif
-    }
+}
 
-    // assume nothing to skip over
-    pos = 0;
+/**
+ * setupEncoding
+ *
+ * Determine the encoding from what was specified and any BOM (Byte Order Mark)
+ * at the start of the input. Prepare for converting from that encoding to UTF-8.
+ */
+void UTF8CharBuffer::setupEncoding() {
 
-    // setup encoding on first read of data
-    if (firstRead) {
+    // a BOM is up to 4 bytes
+    while (raw.size() < 4 && readRaw())
+        ;
 
-        // treat unsigned int field as just 4 bytes regardless of endianness
-        // with 0 for any missing data
-        union { unsigned char d[4]; uint32_t i; } data = { { 0, 0, 0, 0 } };
-        for (size_t i = 0; i < 4 && i < raw.size(); ++i)
-            data.d[i] = static_cast<unsigned char>(raw[i]);
+    const auto hasBOM = [this](const char* bom, size_t size) {
+        return raw.size() >= size && memcmp(raw.data(), bom, size) == 0;
+    };
 
-        // check for UTF-8 BOM
-        if ((data.i & 0x00FFFFFF) == 0x00BFBBEF) {
+    const char* bomencoding = nullptr;
+    if (hasBOM("\xEF\xBB\xBF", 3)) {
 
-            // a trivial conversion, so BOM (Byte Order Mark) for UTF-8 has to be manually skipped
-            pos += 3;
+        bomencoding = "UTF-8";
 
-            // no encoding specified (by user) then UTF-8, otherwise check if it is compatible with UTF-8
-            if (encoding.empty()) {
-                encoding = "UTF-8";
-            } else if (encoding != "UTF-8" && !compatibleEncodings(encoding.c_str(), "UTF-8")) {
-                fprintf(stderr, "Warning: the encoding %s was specified, but the source code has a UTF-8 BOM\n", encoding.c_str());
-            }
-        }
+        // BOM is not part of the text in any encoding
+        raw.erase(raw.begin(), raw.begin() + 3);
+
+    } else if (hasBOM("\xFF\xFE\x00\x00", 4) || hasBOM("\x00\x00\xFE\xFF", 4)) {
+
+        // both UTF-32LE and UTF-32BE are determined automatically from BOM
+        // and processed as UTF-32. Has to be before UTF-16, as the BOM of UTF-16LE is a prefix
+        bomencoding = "UTF-32";
+
+    } else if (hasBOM("\xFF\xFE", 2) || hasBOM("\xFE\xFF", 2)) {
 
-        // auto-detect UTF-16 based on BOM
         // both UTF-16LE and UTF-16BE are determined automatically from BOM
         // and processed as UTF-16
-        if ((data.i & 0x0000FFFF) == 0x0000FFFE || (data.i & 0x0000FFFF) == 0x0000FEFF) {
-
-            // no encoding specified (by user) then UTF-16, otherwise check if it is compatible with UTF-16
-            if (encoding.empty()) {
-                encoding = "UTF-16";
-            } else if (encoding != "UTF-16" && !compatibleEncodings(encoding.c_str(), "UTF-16")) {
-                fprintf(stderr, "Warning: the encoding %s was specified, but the source code has a UTF-16 BOM\n", encoding.c_str());
-            }
-        }
+        bomencoding = "UTF-16";
+    }
 
-        // auto-detect UTF-32 based on BOM
-        // both UTF-32LE and UTF-32BE are determined automatically from BOM
-        // and processed as UTF-32
-        if (data.i == 0xFFFE0000 || data.i == 0xFEFF0000) {
-
-            // no encoding specified (by user) then UTF-32, otherwise check if it is compatible with UTF-32
-            if (encoding.empty()) {
-                encoding = "UTF-32";
-            } else if (encoding != "UTF-32" && !compatibleEncodings(encoding.c_str(), "UTF-32")) {
-                fprintf(stderr, "Warning: the encoding %s was specified, but the source code has a UTF-32 BOM\n", encoding.c_str());
-            }
-        }
+    // no encoding specified (by user) then that of the BOM, otherwise check if it is compatible
+    if (bomencoding && encoding.empty()) {
+        encoding = bomencoding;
+    } else if (bomencoding && encoding != bomencoding && !compatibleEncodings(encoding.c_str(), bomencoding)) {
+        fprintf(stderr, "Warning: the encoding %s was specified, but the source code has a %s BOM\n", encoding.c_str(), bomencoding);
+    }
 
-        // if no encoding found or specified, assume ISO-8859-1
-        if (encoding.empty())
-            encoding = "ISO-8859-1";
-
-        // setup encoder from encoding to UTF-8
-        ic = iconv_open("UTF-8", encoding.c_str());
-        if (ic == (iconv_t) -1) {
-            if (errno == EINVAL) {
-                fprintf(stderr, "srcml: Conversion from encoding '%s' not supported\n\n", encoding.c_str());
-                return 0;
-            }
-        }
+    // if no encoding found or specified, assume ISO-8859-1
+    if (encoding.empty())
+        encoding = "ISO-8859-1";
+
+    // setup encoder from encoding to UTF-8
+    ic = iconv_open("UTF-8", encoding.c_str());
+    if (ic == (iconv_t) -1) {
+        ic = nullptr;
+        fprintf(stderr, "srcml: Conversion from encoding '%s' not supported\n\n", encoding.c_str());
+        raw.clear();
+        inputEnd = true;
+        return;
+    }
 
-        // see if this encoding to UTF-8 is trivial, if so we can use raw characters directly
+    // see if this encoding to UTF-8 is trivial, if so we can use raw characters directly
 #if _LIBICONV_VERSION >= 0x0108
-        iconvctl(ic, ICONV_TRIVIALP, &trivial);
+    iconvctl(ic, ICONV_TRIVIALP, &trivial);
 #else
-        trivial = false;
+    trivial = false;
 #endif
-    }
-    firstRead = false;
+}
 
-    // for non-trivial conversions, convert from raw to cooked
-    if (!trivial) {
-
-        // raw input characters
-        // after call to iconv(), linbuf will point to start of any
-        // incomplete multibyte sequences that were not cooked
-        char* linbuf = raw.data();
-        inbytesleft = raw.size();
-
-        // cooked (encoded in UTF-8) input characters
-        // full output buffer is available since all previous characters have been processed
-        cooked.resize(cooked_size);
-        char* loutbuf = cooked.data();
-        size_t outbytesleft = cooked.size();
-
-        // convert from raw characters to cooked, encoded in UTF-8 characters
-        size_t binsize = iconv(ic, &linbuf, &inbytesleft, &loutbuf, &outbytesleft);
-        if (binsize == (size_t) -1) {
-            fprintf(stderr, "%s\n", strerror(errno));
-            return 0;
+/**
+ * convertRaw
+ *
+ * Convert from the raw characters to the cooked, encoded in UTF-8 characters.
+ * Any incomplete multibyte sequence is left in raw, except at the end of the input.
+ * Bytes that are invalid in the encoding become the replacement character U+FFFD.
+ */
+void UTF8CharBuffer::convertRaw() {
+
+    // number of bytes to skip for an invalid sequence
+    const size_t unitsize = encoding.compare(0, 6, "UTF-16") == 0 || encoding.compare(0, 5, "UCS-2") == 0 ? 2 :
+                            encoding.compare(0, 6, "UTF-32") == 0 || encoding.compare(0, 5, "UCS-4") == 0 ? 4 : 1;
+
+    // full output buffer is available since all previous characters have been processed
+    cooked.resize(cooked_size);
+    size_t cookedused = 0;
+
+    char* linbuf = raw.data();
+    size_t inbytesleft = raw.size();
+    bool flush = false;
+    while (true) {
+
+        // at the end of the input the encoder may still hold characters
+        if (inbytesleft == 0) {
+            if (!inputEnd)
+                break;
+            flush = true;
         }
 
-        // number of bytes cooked is the total size minus the bytes that were "left", i.e., not used, by iconv()
-        cooked.resize(cooked.size() - outbytesleft);
+        char* loutbuf = cooked.data() + cookedused;
+        size_t outbytesleft = cooked.size() - cookedused;
+        const size_t status = flush ? iconv(ic, nullptr, nullptr, &loutbuf, &outbytesleft)
+                                    : iconv(ic, &linbuf, &inbytesleft, &loutbuf, &outbytesleft);
+        const int error = status == (size_t) -1 ? errno : 0;
+        cookedused = cooked.size() - outbytesleft;
+
+        if (error == 0 && flush)
+            break;
+
+        // rest of a multibyte sequence is not read in yet
+        if (error == EINVAL && !inputEnd)
+            break;
+
+        // larger expansion than expected
+        if (error == E2BIG) {
+            cooked.resize(cooked.size() + SRCBUFSIZE);
+
+        // invalid, or incomplete at the end of the input
+        } else if (error) {
+            if (cooked.size() - cookedused < 3)
+                cooked.resize(cooked.size() + SRCBUFSIZE);
+            memcpy(cooked.data() + cookedused, "\xEF\xBF\xBD", 3);
+            cookedused += 3;
+
+            if (flush)
+                break;
+
+            const size_t skip = error == EINVAL ? inbytesleft : std::min(unitsize, inbytesleft);
+            linbuf += skip;
+            inbytesleft -= skip;
+        }
+    }
 
-        // all of the input characters may not have been converted
-        // as not all of their bytes read in (think bufferinsize of 5 with UTF-16 input)
-        // so just move all of them to the start of the buffer
-        if (inbytesleft)
-            std::move(linbuf, linbuf + inbytesleft, raw.begin());
+    cooked.resize(cookedused);
+
+    // what was not converted is first for the next conversion
+    raw.erase(raw.begin(), raw.end() - inbytesleft);
+}
+
+/**
+ * readChars
+ *
+ * Read and process the next sequence of data.
+ *
+ * @returns number of characters available, 0 at the end of the input
+ */
+size_t UTF8CharBuffer::readChars() {
+
+    pos = 0;
+
+    // setup encoding on first read of data
+    const bool first = firstRead;
+    if (firstRead) {
+        firstRead = false;
+        setupEncoding();
+    } else if (trivial) {
+        raw.clear();
+    }
+
+    // a trivial conversion uses the raw characters directly
+    if (trivial) {
+        if (raw.empty())
+            readRaw();
+        return raw.size();
+    }
+
+    // for non-trivial conversions, convert from raw to cooked
+    // data may be too short for a single character
+    cooked.clear();
+    bool more = first && !raw.empty();
+    while (cooked.empty() && !finished) {
+
+        if (!more)
+            more = readRaw();
+        if (!more)
+            finished = true;
+        more = false;
+
+        if (ic)
+            convertRaw();
+
+        // BOM may be specific to the byte order, so not handled by the encoding
+        if (!checkedBOM && !cooked.empty()) {
+            checkedBOM = true;
+            if (cooked.size() >= 3 && memcmp(cooked.data(), "\xEF\xBB\xBF", 3) == 0)
+                cooked.erase(cooked.begin(), cooked.begin() + 3);
+        }
     }
 
-    return trivial ? raw.size() : cooked.size();
+    return cooked.size();
 }
 
 /**
@@ -428,7 +532,7 @@ int UTF8CharBuffer::getChar() {
     unsigned char c = 0;
 
     // may need more characters
-    if (insize == 0 || pos >= insize) {
+    if (pos >= insize) {
 
         insize = readChars();
         if (insize == 0) {
@@ -483,9 +587,8 @@ const std::string& UTF8CharBuffer::getEncoding() const {
  * place in buffer if requested.
  */
 UTF8CharBuffer::~UTF8CharBuffer() {
-    if(sio.context) {
+    if (sio.close_callback)
         sio.close_callback(sio.context);
-    }
 
     if (ic)
         iconv_close(ic);
diff --git a/src/parser/UTF8CharBuffer.hpp b/src/parser/UTF8CharBuffer.hpp
index 665efa4..41768c2 100644
--- a/src/parser/UTF8CharBuffer.hpp
+++ b/src/parser/UTF8CharBuffer.hpp
@@ -129,7 +129,15 @@ public:
 private:
     UTF8CharBuffer(const char* encoding, bool hashneeded, boost::optional<std::string>& hash, size_t outbuf_size);
 
-    ssize_t readChars();
+    size_t readChars();
+
+    bool readRaw();
+
+    void hashRaw(size_t offset);
+
+    void setupEncoding();
+
+    void convertRaw();
 
     /* position currently at in input buffer */
     size_t pos = 0;
@@ -158,12 +166,9 @@ private:
     SHA_CTX ctx;
 #endif
 
-    /** raw character buffer */
+    /** raw character buffer, may start with an incomplete multibyte sequence from a previous read */
     std::vector<char> raw;
 
-    /** raw characters that were not converted due to an incomplete multibyte sequence */
-    size_t inbytesleft = 0;
-
     /** cooked (encoded) characters */
     std::vector<char> cooked;
 
@@ -180,9 +185,18 @@ private:
     int trivial = false;
 
     /** contacts and callbacks for read and close */
-    srcMLIO sio;
+    srcMLIO sio = { nullptr, nullptr, nullptr };
 
     /** first time reading data */
     bool firstRead = true;
+
+    /** no more data from the input, either at the end or an error */
+    bool inputEnd = false;
+
+    /** all data converted */
+    bool finished = false;
+
+    /** if start of the converted data was checked for a BOM */
+    bool checkedBOM = false;
 };
 #endif
-- 
2.43.0


From 2fa207a48cbcc3c17c702d217fea3f249a47c99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:37 +0000
Subject: [PATCH 015/115] fix: parsing a unit from a file name closes the file,
 and a failed start of the unit frees the input

---
 src/libsrcml/srcml_unit.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index eef9b2d..64cbd92 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -505,20 +505,18 @@ static int srcml_unit_parse_internal(struct srcml_unit* unit, const char* filena
     if (src_encoding) {
         auto ic = iconv_open("UTF-8", src_encoding);
         if (ic == (iconv_t) -1) {
-            if (errno == EINVAL) {
-                fprintf(stderr, "srcml: Conversion from encoding '%s' not supported\n", src_encoding);
-                return SRCML_STATUS_INVALID_ARGUMENT;
-            }
+            fprintf(stderr, "srcml: Conversion from encoding '%s' not supported\n", src_encoding);
+            return SRCML_STATUS_INVALID_ARGUMENT;
         }
         iconv_close(ic);
     }
 
     bool output_hash = !unit->hash && unit->archive->options & SRCML_OPTION_HASH;
 
-    UTF8CharBuffer* input = 0;
+    std::unique_ptr<UTF8CharBuffer> input;
     try {
 
-        input = createUTF8CharBuffer(src_encoding, output_hash, unit->hash);
+        input.reset(createUTF8CharBuffer(src_encoding, output_hash, unit->hash));
 
     } catch(...) { return SRCML_STATUS_IO_ERROR; }
 
@@ -532,8 +530,8 @@ static int srcml_unit_parse_internal(struct srcml_unit* unit, const char* filena
     if (status != SRCML_STATUS_OK)
         return status;
 
-    // parse the input
-    unit->unit_translator->translate(input);
+    // parse the input (which is freed by the lexer)
+    unit->unit_translator->translate(input.release());
 
     // namespaces were updated during translation, may now include
     // namespaces that were optional
@@ -564,10 +562,14 @@ int srcml_unit_parse_filename(struct srcml_unit* unit, const char* src_filename)
         return SRCML_STATUS_IO_ERROR;
     }
 
-    return srcml_unit_parse_internal(unit, src_filename, [src_fd](const char* encoding, bool output_hash, boost::optional<std::string>& hash)-> UTF8CharBuffer* {
+    int status = srcml_unit_parse_internal(unit, src_filename, [src_fd](const char* encoding, bool output_hash, boost::optional<std::string>& hash)-> UTF8CharBuffer* {
 
         return new UTF8CharBuffer(src_fd, encoding, output_hash, hash);
     });
+
+    CLOSE(src_fd);
+
+    return status;
 }
 
 /**
-- 
2.43.0


From f02215a40be7f0da44234a3041dbb1b4fec45c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:09 +0000
Subject: [PATCH 016/115] fix: parsing a unit again does not keep the hash,
 line count, encoding, namespaces or cached srcML of the previous source

---
 src/libsrcml/srcml_types.hpp |  4 ++++
 src/libsrcml/srcml_unit.cpp  | 24 +++++++++++++++++++++---
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/libsrcml/srcml_types.hpp b/src/libsrcml/srcml_types.hpp
index 2b4ecd9..0d741fa 100644
--- a/src/libsrcml/srcml_types.hpp
+++ b/src/libsrcml/srcml_types.hpp
@@ -196,6 +196,10 @@ struct srcml_unit {
     boost::optional<std::string> timestamp;
     /** an attribute for a hash string */
     boost::optional<std::string> hash;
+    /** if the source encoding is from the last parse, i.e., not specified */
+    bool parsed_encoding = false;
+    /** if the hash is from the last parse, i.e., not specified */
+    bool parsed_hash = false;
     /** an array of name-value attribute pairs */
     std::vector<std::string> attributes;
     /** the type of eol to output with source code */
diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index 64cbd92..7332c49 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -51,6 +51,7 @@ int srcml_unit_set_src_encoding(struct srcml_unit* unit, const char* encoding) {
         return SRCML_STATUS_INVALID_ARGUMENT;
 
     unit->encoding = encoding ? std::string(encoding) : decltype(unit->encoding)();
+    unit->parsed_encoding = false;
 
     return SRCML_STATUS_OK;
 }
@@ -151,6 +152,7 @@ int srcml_unit_set_hash(struct srcml_unit* unit, const char* hash) {
         return SRCML_STATUS_INVALID_ARGUMENT;
 
     unit->hash = hash ? std::string(hash) : decltype(unit->hash)();
+    unit->parsed_hash = false;
 
     return SRCML_STATUS_OK;
 }
@@ -499,6 +501,13 @@ static int srcml_unit_parse_internal(struct srcml_unit* unit, const char* filena
 
     unit->derived_language = lang;
 
+    // nothing from the source of a previous parse applies to this one
+    if (unit->parsed_encoding)
+        srcml_unit_set_src_encoding(unit, nullptr);
+    if (unit->parsed_hash)
+        srcml_unit_set_hash(unit, nullptr);
+    unit->namespaces = boost::none;
+
     const char* src_encoding = optional_to_c_str(unit->encoding, optional_to_c_str(unit->archive->src_encoding));
 
     // verify encoding here instead of later, when more difficult to handle errors
@@ -520,6 +529,8 @@ static int srcml_unit_parse_internal(struct srcml_unit* unit, const char* filena
 
     } catch(...) { return SRCML_STATUS_IO_ERROR; }
 
+    unit->parsed_encoding = !unit->encoding;
+    unit->parsed_hash = output_hash;
     unit->encoding = input->getEncoding();
 
     // unit url is just that of the archive
@@ -1022,10 +1033,15 @@ int srcml_write_end_unit(struct srcml_unit* unit) {
     free(start_tag);
     free(srcml);
 
+    // nothing derived from previous contents applies anymore
+    unit->srcml_revision = boost::none;
+    unit->srcml_fragment = boost::none;
+    unit->srcml_fragment_revision = boost::none;
+    unit->srcml_raw = boost::none;
+    unit->srcml_raw_revision = boost::none;
+
     // record the loc
-    if (!unit->src) {
-        unit->src = extract_src(unit->srcml);
-    }
+    unit->src = extract_src(unit->srcml);
 
     unit->loc = (int) std::count(unit->src->begin(), unit->src->end(), '\n');
     if (!unit->src->empty() && unit->src->back() != '\n')
@@ -1205,6 +1221,7 @@ struct srcml_unit* srcml_unit_clone(const struct srcml_unit* unit) {
     new_unit->filename = unit->filename;
 
     new_unit->hash = unit->hash;
+    new_unit->parsed_hash = unit->parsed_hash;
     new_unit->timestamp = unit->timestamp;
     new_unit->version = unit->version;
     new_unit->url = unit->url;
@@ -1212,6 +1229,7 @@ struct srcml_unit* srcml_unit_clone(const struct srcml_unit* unit) {
     new_unit->language = unit->language;
     new_unit->revision = unit->revision;
     new_unit->encoding = unit->encoding;
+    new_unit->parsed_encoding = unit->parsed_encoding;
     new_unit->attributes = unit->attributes;
     new_unit->eol = unit->eol;
     new_unit->derived_language = unit->derived_language;
-- 
2.43.0


From 0b6b64c7ab209606712982de2eb0fc2a60191ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:33 +0000
Subject: [PATCH 017/115] fix: returned srcML of a srcDiff revision stays valid
 while the revision is the same

---
 src/libsrcml/srcml_unit.cpp | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index 7332c49..5b0836d 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -327,6 +327,24 @@ size_t srcml_unit_get_eol(struct srcml_unit* unit) {
     return unit->eol;
 }
 
+/**
+ * update_revision_cache
+ * @param unit a srcml unit
+ *
+ * The cached srcML of a revision is only for the current revision. While that is the same the
+ * cached srcML is kept, so that previously returned srcML stays valid.
+ */
+static void update_revision_cache(struct srcml_unit* unit) {
+
+    if (unit->currevision == (int) *unit->archive->revision_number)
+        return;
+
+    unit->srcml_revision = boost::none;
+    unit->srcml_fragment_revision = boost::none;
+    unit->srcml_raw_revision = boost::none;
+    unit->currevision = (int) *unit->archive->revision_number;
+}
+
 /**
  * srcml_unit_get_srcml
  * @param unit a srcml unit
@@ -349,7 +367,8 @@ const char* srcml_unit_get_srcml(struct srcml_unit* unit) {
         unit->archive->reader->read_body(unit);
 
     if (unit->archive->revision_number && issrcdiff(unit->archive->namespaces)) {
-        if (!unit->srcml_revision || unit->currevision != (int) *unit->archive->revision_number)
+        update_revision_cache(unit);
+        if (!unit->srcml_revision)
             unit->srcml_revision = extract_revision(unit->srcml.c_str(), (int) unit->srcml.size(), (int) *unit->archive->revision_number);
         return unit->srcml_revision->c_str();
     }
@@ -416,7 +435,8 @@ const char* srcml_unit_get_srcml_outer(struct srcml_unit* unit) {
 
     // if srcdiff versioned, then use that
     if (unit->archive->revision_number && issrcdiff(unit->archive->namespaces)) {
-        if (!unit->srcml_fragment_revision || unit->currevision != (int) *unit->archive->revision_number)
+        update_revision_cache(unit);
+        if (!unit->srcml_fragment_revision)
             unit->srcml_fragment_revision = extract_revision(unit->srcml_fragment->c_str(), (int) unit->srcml_fragment->size(), (int) *unit->archive->revision_number);
         return unit->srcml_fragment_revision->c_str();
     }
@@ -453,7 +473,8 @@ const char* srcml_unit_get_srcml_inner(struct srcml_unit* unit) {
 
     // if srcdiff versioned, then use that
     if (unit->archive->revision_number && issrcdiff(unit->archive->namespaces)) {
-        if (!unit->srcml_raw_revision || unit->currevision != (int) *unit->archive->revision_number)
+        update_revision_cache(unit);
+        if (!unit->srcml_raw_revision)
             unit->srcml_raw_revision = extract_revision(unit->srcml.c_str() + start, rawsize, (int) *unit->archive->revision_number);
         return unit->srcml_raw_revision->c_str();
     }
-- 
2.43.0


From 8a96e6e7220f9b64afa67b511caf837a00f3536b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:16 +0000
Subject: [PATCH 018/115] fix: null archives and arguments, and indices out of
 range, are reported and not accessed

---
 src/libsrcml/srcml_archive.cpp | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index 1e01848..a5d204a 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -107,6 +107,9 @@ const char* srcml_archive_error_string(const struct srcml_archive* archive) {
  */
 void srcml_archive_free(struct srcml_archive* archive) {
 
+    if (archive == nullptr)
+        return;
+
     if (archive->translator) {
         delete archive->translator;
         archive->translator = nullptr;
@@ -126,9 +129,6 @@ void srcml_archive_free(struct srcml_archive* archive) {
         archive->reader = nullptr;
     }
 
-    if (archive == nullptr)
-        return;
-
     delete archive;
 }
 
@@ -300,7 +300,8 @@ int srcml_archive_set_options(struct srcml_archive* archive, size_t options) {
  * @param archive a srcml_archive
  */
 int srcml_archive_is_solitary_unit(const struct srcml_archive* archive) {
-    return (archive->options & SRCML_OPTION_ARCHIVE) == 0;
+
+    return archive && (archive->options & SRCML_OPTION_ARCHIVE) == 0;
 }
 
 /**
@@ -308,7 +309,7 @@ int srcml_archive_is_solitary_unit(const struct srcml_archive* archive) {
  */
 int srcml_archive_has_hash(const struct srcml_archive* archive) {
 
-    return (archive->options & SRCML_OPTION_HASH) != 0;
+    return archive && (archive->options & SRCML_OPTION_HASH) != 0;
 }
 
 /**
@@ -504,7 +505,7 @@ int srcml_archive_register_namespace(struct srcml_archive* archive, const char*
  */
 int srcml_archive_set_processing_instruction(struct srcml_archive* archive, const char* target, const char* data) {
 
-    if (archive == nullptr)
+    if (archive == nullptr || target == nullptr || data == nullptr)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
     archive->processing_instruction = std::pair<std::string,std::string>(target, data);
@@ -692,7 +693,7 @@ const char* srcml_archive_get_namespace_prefix(const struct srcml_archive* archi
     if (archive == nullptr)
         return nullptr;
 
-    if (pos > archive->namespaces.size())
+    if (pos >= archive->namespaces.size())
         return nullptr;
 
     return archive->namespaces[pos].prefix.c_str();
@@ -763,7 +764,7 @@ const char* srcml_archive_get_uri_from_prefix(const struct srcml_archive* archiv
  */
 const char* srcml_archive_get_processing_instruction_target(const struct srcml_archive* archive) {
 
-    return archive->processing_instruction ? archive->processing_instruction->first.c_str() : 0;
+    return archive && archive->processing_instruction ? archive->processing_instruction->first.c_str() : 0;
 }
 
 /**
@@ -774,7 +775,7 @@ const char* srcml_archive_get_processing_instruction_target(const struct srcml_a
  */
 const char* srcml_archive_get_processing_instruction_data(const struct srcml_archive* archive) {
 
-    return archive->processing_instruction ?  archive->processing_instruction->second.c_str() : 0;
+    return archive && archive->processing_instruction ? archive->processing_instruction->second.c_str() : 0;
 }
 
 /**
@@ -801,7 +802,7 @@ const char* srcml_archive_get_macro_token(const struct srcml_archive* archive, s
     if (archive == nullptr)
         return 0;
 
-    if (pos * 2 >= archive->user_macro_list.size())
+    if (pos >= archive->user_macro_list.size() / 2)
         return 0;
 
     return archive->user_macro_list[pos * 2].c_str();
@@ -823,7 +824,7 @@ const char* srcml_archive_get_macro_token_type(const struct srcml_archive* archi
     try {
 
         std::vector<std::string>::size_type user_macro_list_size = archive->user_macro_list.size() / 2;
-        for(std::vector<std::string>::size_type i = 0;  user_macro_list_size; ++i)
+        for(std::vector<std::string>::size_type i = 0; i < user_macro_list_size; ++i)
             if (archive->user_macro_list.at(i * 2) == token)
                 return archive->user_macro_list.at(i * 2 + 1).c_str();
 
@@ -845,7 +846,7 @@ const char* srcml_archive_get_macro_type(const struct srcml_archive* archive, si
     if (archive == nullptr)
         return 0;
 
-    if (pos * 2 + 1 >= archive->user_macro_list.size())
+    if (pos >= archive->user_macro_list.size() / 2)
         return 0;
 
     return archive->user_macro_list[pos * 2 + 1].c_str();
-- 
2.43.0


From 0d1cb34b5d657079f5724e6dde8a16accb0ad3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:44 +0000
Subject: [PATCH 019/115] fix: setting the options of an archive keeps whether
 it is an archive and has hashes

---
 src/libsrcml/srcml_archive.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index a5d204a..2e08bfb 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -284,6 +284,10 @@ int srcml_archive_set_options(struct srcml_archive* archive, size_t options) {
     if (archive == nullptr)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
+    // only the public options are replaced
+    archive->options -= archive->options % (1<<7);
+    archive->options &= ~(unsigned long long)(SRCML_OPTION_CPP_DECLARED);
+
     // if the user specified cpp, then mark that it was declared
     if (options & SRCML_OPTION_CPP) {
         archive->options |= SRCML_OPTION_CPP_DECLARED;
@@ -291,7 +295,7 @@ int srcml_archive_set_options(struct srcml_archive* archive, size_t options) {
 
     int modoption = options % (1<<7);
 
-    archive->options = modoption;
+    archive->options |= modoption;
 
     return SRCML_STATUS_OK;
 }
-- 
2.43.0


From da10062b50f670b214c72ae11408d6a89c439dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:15 +0000
Subject: [PATCH 020/115] fix: opening and closing of archives: failed opens
 are reported, no second open, close more than once, raw writes only when open
 for writing

---
 src/libsrcml/libsrcml.cpp      |  4 +--
 src/libsrcml/srcml_archive.cpp | 61 ++++++++++++++++++++++++++++++----
 2 files changed, 56 insertions(+), 9 deletions(-)

diff --git a/src/libsrcml/libsrcml.cpp b/src/libsrcml/libsrcml.cpp
index 945d745..9f67eb0 100644
--- a/src/libsrcml/libsrcml.cpp
+++ b/src/libsrcml/libsrcml.cpp
@@ -217,7 +217,7 @@ int srcml(const char* input_filename, const char* output_filename) {
         size_t len = strlen(input_filename);
         if (!((len > 4 && tolower(input_filename[len - 1]) == 'l' && tolower(input_filename[len - 2]) == 'm'
             && ((tolower(input_filename[len - 3]) == 'x' && input_filename[len - 4] == '.')
-             || (tolower(input_filename[len - 3]) == 'c' && tolower(input_filename[len - 4]) == 'r' && tolower(input_filename[len - 5]) == 's' && tolower(input_filename[len - 6]) == '.')))
+             || (len > 5 && tolower(input_filename[len - 3]) == 'c' && tolower(input_filename[len - 4]) == 'r' && tolower(input_filename[len - 5]) == 's' && tolower(input_filename[len - 6]) == '.')))
            || (global_archive.language && strcmp(global_archive.language->c_str(), "xml") == 0))) {
 
             if (global_archive.language) {
@@ -242,7 +242,7 @@ int srcml(const char* input_filename, const char* output_filename) {
 
         std::unique_ptr<srcml_unit> unit(srcml_archive_read_unit(archive.get()));
         if (!unit)
-            return status;
+            return SRCML_STATUS_INVALID_INPUT;
 
         status = srcml_unit_unparse_filename(unit.get(), output_filename);
         if (status != SRCML_STATUS_OK)
diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index 2e08bfb..3ebe397 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -922,8 +922,14 @@ int srcml_archive_write_open_filename(struct srcml_archive* archive, const char*
     if (archive == nullptr || srcml_filename == nullptr)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
-    archive->type = SRCML_ARCHIVE_WRITE;
+    if (archive->type != SRCML_ARCHIVE_INVALID)
+        return SRCML_STATUS_INVALID_IO_OPERATION;
+
     archive->output_buffer = xmlOutputBufferCreateFilename(srcml_filename, 0, 0);
+    if (!archive->output_buffer)
+        return SRCML_STATUS_IO_ERROR;
+
+    archive->type = SRCML_ARCHIVE_WRITE;
 
     return SRCML_STATUS_OK;
 }
@@ -945,6 +951,9 @@ int srcml_archive_write_open_memory(struct srcml_archive* archive, char** buffer
     if (archive == nullptr || buffer == nullptr || size == nullptr)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
+    if (archive->type != SRCML_ARCHIVE_INVALID)
+        return SRCML_STATUS_INVALID_IO_OPERATION;
+
     archive->type = SRCML_ARCHIVE_WRITE;
 
     archive->buffer = buffer;
@@ -971,9 +980,14 @@ int srcml_archive_write_open_FILE(struct srcml_archive* archive, FILE* srcml_fil
     if (archive == nullptr || srcml_file == nullptr)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
-    archive->type = SRCML_ARCHIVE_WRITE;
+    if (archive->type != SRCML_ARCHIVE_INVALID)
+        return SRCML_STATUS_INVALID_IO_OPERATION;
 
     archive->output_buffer = xmlOutputBufferCreateFile(srcml_file, xmlFindCharEncodingHandler(archive->encoding ? archive->encoding->c_str() : 0));
+    if (!archive->output_buffer)
+        return SRCML_STATUS_IO_ERROR;
+
+    archive->type = SRCML_ARCHIVE_WRITE;
 
     return SRCML_STATUS_OK;
 }
@@ -993,9 +1007,14 @@ int srcml_archive_write_open_fd(struct srcml_archive* archive, int srcml_fd) {
     if (archive == nullptr || srcml_fd < 0)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
-    archive->type = SRCML_ARCHIVE_WRITE;
+    if (archive->type != SRCML_ARCHIVE_INVALID)
+        return SRCML_STATUS_INVALID_IO_OPERATION;
 
     archive->output_buffer = xmlOutputBufferCreateFd(srcml_fd, xmlFindCharEncodingHandler(archive->encoding ? archive->encoding->c_str() : 0));
+    if (!archive->output_buffer)
+        return SRCML_STATUS_IO_ERROR;
+
+    archive->type = SRCML_ARCHIVE_WRITE;
 
     return SRCML_STATUS_OK;
 }
@@ -1018,9 +1037,14 @@ int srcml_archive_write_open_io(struct srcml_archive* archive, void * context, i
     if (archive == nullptr || context == nullptr || write_callback == nullptr)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
-    archive->type = SRCML_ARCHIVE_WRITE;
+    if (archive->type != SRCML_ARCHIVE_INVALID)
+        return SRCML_STATUS_INVALID_IO_OPERATION;
 
     archive->output_buffer = xmlOutputBufferCreateIO(write_callback, close_callback, context, xmlFindCharEncodingHandler(archive->encoding ? archive->encoding->c_str() : 0));
+    if (!archive->output_buffer)
+        return SRCML_STATUS_IO_ERROR;
+
+    archive->type = SRCML_ARCHIVE_WRITE;
 
     return SRCML_STATUS_OK;
 }
@@ -1044,6 +1068,9 @@ static int srcml_archive_read_open_internal(struct srcml_archive* archive, std::
     if (!input)
         return SRCML_STATUS_IO_ERROR;
 
+    if (archive->type != SRCML_ARCHIVE_INVALID)
+        return SRCML_STATUS_INVALID_IO_OPERATION;
+
     try {
 
         archive->reader = new srcml_sax2_reader(archive, std::move(input));
@@ -1251,11 +1278,14 @@ int srcml_archive_write_string(struct srcml_archive* archive, const char* s, int
     if (archive == nullptr || s == nullptr || len < 0)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
-    if (archive->output_buffer)
-        xmlOutputBufferWrite(archive->output_buffer, len, s);
+    if (archive->type != SRCML_ARCHIVE_WRITE && archive->type != SRCML_ARCHIVE_RW)
+        return SRCML_STATUS_INVALID_IO_OPERATION;
 
     archive->rawwrites = true;
 
+    if (archive->output_buffer && xmlOutputBufferWrite(archive->output_buffer, len, s) < 0)
+        return SRCML_STATUS_IO_ERROR;
+
     return SRCML_STATUS_OK;
 }
 
@@ -1344,11 +1374,15 @@ void srcml_archive_close(struct srcml_archive* archive) {
         srcml_archive_write_create_translator_xml_buffer(archive);
     }
 
+    // the translator also closes the output buffer
     if (archive->translator) {
         archive->translator->close();
+        delete archive->translator;
+        archive->translator = nullptr;
+        archive->output_buffer = nullptr;
     }
 
-    if (archive->rawwrites && archive->output_buffer) {
+    if (archive->output_buffer) {
         xmlOutputBufferClose(archive->output_buffer);
         archive->output_buffer = nullptr;
     }
@@ -1360,6 +1394,19 @@ void srcml_archive_close(struct srcml_archive* archive) {
         *archive->size = (size_t) archive->xbuffer->use;
         (*archive->buffer) = (char *) xmlBufferDetach(archive->xbuffer);
     }
+    archive->buffer = nullptr;
+    archive->size = nullptr;
+
+    if (archive->xbuffer) {
+        xmlBufferFree(archive->xbuffer);
+        archive->xbuffer = nullptr;
+    }
+
+    // finish any reading
+    delete archive->reader;
+    archive->reader = nullptr;
+
+    archive->rawwrites = false;
 
     archive->type = SRCML_ARCHIVE_INVALID;
 }
-- 
2.43.0


From 963c0800d5828fbec596826c1b7c8c2402f5baaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:22 +0000
Subject: [PATCH 021/115] fix: reading threads wait for each other's state, so
 that no wakeup is lost or spurious

---
 src/libsrcml/srcml_reader_handler.hpp | 45 +++++++++++++++++----------
 src/libsrcml/srcml_sax2_reader.cpp    |  7 ++---
 2 files changed, 31 insertions(+), 21 deletions(-)

diff --git a/src/libsrcml/srcml_reader_handler.hpp b/src/libsrcml/srcml_reader_handler.hpp
index 721c8b1..e71f769 100644
--- a/src/libsrcml/srcml_reader_handler.hpp
+++ b/src/libsrcml/srcml_reader_handler.hpp
@@ -40,6 +40,7 @@
 
 #include <cstring>
 
+#include <atomic>
 #include <mutex>
 #include <condition_variable>
 #include <boost/optional.hpp>
@@ -95,7 +96,7 @@ private :
     srcml_unit* unit = nullptr;
 
     /** has reached end of parsing*/
-    bool is_done = false;
+    std::atomic<bool> is_done{false};
     /** has passed root*/
     bool read_root = false;
     /** stop after collecting unit attribute*/
@@ -104,10 +105,10 @@ private :
     bool collect_unit_body = false;
 
     /** terminate */
-    bool terminate = false;
+    std::atomic<bool> terminate{false};
 
-    /** indicate if we need to wait on the root */
-    bool wait_root = true;
+    /** if SAX2 parsing is paused, i.e., it is the turn of the calling thread */
+    bool paused = false;
 
     /** skip internal unit elements */
     bool skip = false;
@@ -154,11 +155,20 @@ public :
 
         std::unique_lock<std::mutex> lock(mutex);
 
-        if (is_done)
-            return;
+        cond.wait(lock, [this]() { return paused || is_done; });
+    }
+
+    /**
+     * pause
+     * @param lock the held lock
+     *
+     * Let the calling thread continue, and wait until it resumes SAX2 execution.
+     */
+    void pause(std::unique_lock<std::mutex>& lock) {
 
-        if (wait_root)
-            cond.wait(lock);
+        paused = true;
+        cond.notify_one();
+        cond.wait(lock, [this]() { return !paused || terminate; });
     }
 
     /**
@@ -170,6 +180,7 @@ public :
 
         std::unique_lock<std::mutex> lock(mutex);
 
+        paused = false;
         cond.notify_one();
     }
 
@@ -181,11 +192,13 @@ public :
     void resume_and_wait() {
 
         std::unique_lock<std::mutex> lock(mutex);
-        cond.notify_one();
         if (is_done)
             return;
 
-        cond.wait(lock);
+        paused = false;
+        cond.notify_one();
+
+        cond.wait(lock, [this]() { return paused || is_done; });
     }
 
     /**
@@ -195,6 +208,8 @@ public :
      */
     void done() {
 
+        std::unique_lock<std::mutex> lock(mutex);
+
         is_done = true;
 
         cond.notify_one();
@@ -353,9 +368,7 @@ public :
 
                 if (terminate)
                     stop_parser();
-                wait_root = false;
-                cond.notify_one();
-                cond.wait(lock);
+                pause(lock);
                 read_root = true;
             }
 
@@ -381,8 +394,7 @@ public :
             if (terminate)
                 stop_parser();
 
-            cond.notify_one();
-            cond.wait(lock);
+            pause(lock);
         }
 
         state->loc = 0;
@@ -479,8 +491,7 @@ public :
             // pause
             std::unique_lock<std::mutex> lock(mutex);
             if (terminate) stop_parser();
-            cond.notify_one();
-            cond.wait(lock);
+            pause(lock);
         }
 
         if (terminate)
diff --git a/src/libsrcml/srcml_sax2_reader.cpp b/src/libsrcml/srcml_sax2_reader.cpp
index 567126d..36feb37 100644
--- a/src/libsrcml/srcml_sax2_reader.cpp
+++ b/src/libsrcml/srcml_sax2_reader.cpp
@@ -45,13 +45,12 @@ static void* start_routine(thread_args* args) {
         if (!(error.error_code == XML_ERR_EXTRA_CONTENT || error.error_code == XML_ERR_DOCUMENT_END)) {
 
             fprintf(stderr, "Error Parsing: %s\n", error.message.c_str());
-
-            args->handler->done();
         }
-
-        // might have to release a lock here or set is_done
     }
 
+    // however the parsing ended, do not let the calling thread wait
+    args->handler->done();
+
     return 0;
 }
 
-- 
2.43.0


From 831d0cbd0673fcbc2b7272146401e3150c074e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:45 +0000
Subject: [PATCH 022/115] fix: element names of an archive being read are
 compared with those of its own parser, not of another archive

---
 src/libsrcml/sax2_srcsax_handler.cpp | 20 +++++++-------------
 src/libsrcml/sax2_srcsax_handler.hpp |  6 ++++++
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index 6c4ed61..730ee7c 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -48,12 +48,6 @@
     #define SRCSAX_DEBUG_END_CHARS(ch,len)
 #endif
 
-// libxml2 places elements into a dictionary
-// once initialized, can compare pointers instead of strings
-static const xmlChar* UNIT_ENTRY = nullptr;
-static const xmlChar* MACRO_LIST_ENTRY = nullptr;
-static const xmlChar* ESCAPE_ENTRY = nullptr;
-
 /**
  * factory
  *
@@ -191,9 +185,9 @@ void start_document(void* ctx) {
     SRCSAX_DEBUG_START("");
 
     // save for dictionary lookup of common elements
-    UNIT_ENTRY       = xmlDictLookup(ctxt->dict, (const xmlChar*) "unit", (int) strlen("unit"));
-    MACRO_LIST_ENTRY = xmlDictLookup(ctxt->dict, (const xmlChar*) "macro-list", (int) strlen("macro-list"));
-    ESCAPE_ENTRY     = xmlDictLookup(ctxt->dict, (const xmlChar*) "escape", (int) strlen("escape"));
+    state->UNIT_ENTRY       = xmlDictLookup(ctxt->dict, (const xmlChar*) "unit", (int) strlen("unit"));
+    state->MACRO_LIST_ENTRY = xmlDictLookup(ctxt->dict, (const xmlChar*) "macro-list", (int) strlen("macro-list"));
+    state->ESCAPE_ENTRY     = xmlDictLookup(ctxt->dict, (const xmlChar*) "escape", (int) strlen("escape"));
 
     // save the encoding from the input
     state->context->encoding = "UTF-8";
@@ -373,7 +367,7 @@ void first_start_element(void* ctx, const xmlChar* localname, const xmlChar* pre
 
     // if macros are found, then must return, process first
     // but stay in first_start_element, since this can be between root unit and nested unit
-    if (localname == MACRO_LIST_ENTRY) {
+    if (localname == state->MACRO_LIST_ENTRY) {
 
         state->context->handler->meta_tag(state->context, (const char*) localname, (const char*) prefix, (const char*) URI,
                                           nb_namespaces, namespaces, nb_attributes, attributes);
@@ -381,7 +375,7 @@ void first_start_element(void* ctx, const xmlChar* localname, const xmlChar* pre
     }
 
     // archive when the first element after the root is <unit>
-    state->context->is_archive = (localname == UNIT_ENTRY);
+    state->context->is_archive = (localname == state->UNIT_ENTRY);
 
     // turn off first_start_element() handling
     ctxt->sax->startElementNs = &start_element;
@@ -633,7 +627,7 @@ void start_element(void* ctx, const xmlChar* localname, const xmlChar* /* prefix
 
         // Special element <escape char="0x0c"/> used to embed non-XML characters
         // extract the value of the char attribute and add to the src (text)
-        if (localname == ESCAPE_ENTRY) {
+        if (localname == state->ESCAPE_ENTRY) {
 
             std::string svalue((const char *)attributes[0 * 5 + 3], attributes[0 * 5 + 4] - attributes[0 * 5 + 3]);
 
@@ -697,7 +691,7 @@ void end_element(void* ctx, const xmlChar* localname, const xmlChar* prefix, con
     SRCSAX_DEBUG_END(localname);
 
     // plain end element
-    if (localname != UNIT_ENTRY) {
+    if (localname != state->UNIT_ENTRY) {
         return;
     }
 
diff --git a/src/libsrcml/sax2_srcsax_handler.hpp b/src/libsrcml/sax2_srcsax_handler.hpp
index c515197..79d6786 100644
--- a/src/libsrcml/sax2_srcsax_handler.hpp
+++ b/src/libsrcml/sax2_srcsax_handler.hpp
@@ -60,6 +60,12 @@ enum PROCESS {
  */
 struct sax2_srcsax_handler {
 
+    /** libxml2 places elements into the dictionary of the parser
+     *  once initialized, can compare pointers instead of strings */
+    const xmlChar* UNIT_ENTRY = nullptr;
+    const xmlChar* MACRO_LIST_ENTRY = nullptr;
+    const xmlChar* ESCAPE_ENTRY = nullptr;
+
     /** hooks for processing */
     srcsax_context* context = nullptr;
 
-- 
2.43.0


From b1866436c23d4a649c5d23711cebebf84b0dce06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:45 +0000
Subject: [PATCH 023/115] fix: the prefix of the cpp namespace of a unit that
 is read is the declared one, and only for that unit

---
 src/libsrcml/sax2_srcsax_handler.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index 730ee7c..0aa0532 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -432,11 +432,12 @@ void start_unit(void* ctx, const xmlChar* localname, const xmlChar* prefix, cons
     if (state == nullptr)
         return;
 
-    // collect cpp prefix
+    // collect cpp prefix, which is only for this unit
+    state->cpp_prefix = boost::none;
     for (int i = 0; i < nb_namespaces; ++i) {
 
         if (std::string((const char*) namespaces[i * 2 + 1]) == SRCML_CPP_NS_URI) {
-            state->cpp_prefix = namespaces[i * 2] ? "" : (const char*) namespaces[i * 2];
+            state->cpp_prefix = namespaces[i * 2] ? (const char*) namespaces[i * 2] : "";
         }
     }
 
-- 
2.43.0


From 9fb99d91584a07443b9be2feedc0a6705980781b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:45 +0000
Subject: [PATCH 024/115] fix: reading an escape element without attributes, or
 with an exception, does not crash

---
 src/libsrcml/sax2_srcsax_handler.cpp | 4 ++--
 src/libsrcml/srcml_sax2_reader.cpp   | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index 0aa0532..1d436a3 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -600,7 +600,7 @@ void end_root(void* ctx, const xmlChar* localname, const xmlChar* prefix, const
  */
 void start_element(void* ctx, const xmlChar* localname, const xmlChar* /* prefix */, const xmlChar* /* URI */,
                     int /* nb_namespaces */, const xmlChar** /* namespaces */,
-                    int /* nb_attributes */, int /* nb_defaulted */, const xmlChar** attributes) {
+                    int nb_attributes, int /* nb_defaulted */, const xmlChar** attributes) {
 
     auto ctxt = (xmlParserCtxtPtr) ctx;
     if (ctxt == nullptr)
@@ -628,7 +628,7 @@ void start_element(void* ctx, const xmlChar* localname, const xmlChar* /* prefix
 
         // Special element <escape char="0x0c"/> used to embed non-XML characters
         // extract the value of the char attribute and add to the src (text)
-        if (localname == state->ESCAPE_ENTRY) {
+        if (localname == state->ESCAPE_ENTRY && nb_attributes > 0) {
 
             std::string svalue((const char *)attributes[0 * 5 + 3], attributes[0 * 5 + 4] - attributes[0 * 5 + 3]);
 
diff --git a/src/libsrcml/srcml_sax2_reader.cpp b/src/libsrcml/srcml_sax2_reader.cpp
index 36feb37..99d407e 100644
--- a/src/libsrcml/srcml_sax2_reader.cpp
+++ b/src/libsrcml/srcml_sax2_reader.cpp
@@ -46,6 +46,10 @@ static void* start_routine(thread_args* args) {
 
             fprintf(stderr, "Error Parsing: %s\n", error.message.c_str());
         }
+
+    } catch(...) {
+
+        fprintf(stderr, "Error Parsing\n");
     }
 
     // however the parsing ended, do not let the calling thread wait
-- 
2.43.0


From 403e89555e5eac3cab6563e4acbb6a7124faf2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:22 +0000
Subject: [PATCH 025/115] fix: only one byte order mark is removed from the
 source

---
 src/parser/UTF8CharBuffer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/UTF8CharBuffer.cpp b/src/parser/UTF8CharBuffer.cpp
index ea17367..733e562 100644
--- a/src/parser/UTF8CharBuffer.cpp
+++ b/src/parser/UTF8CharBuffer.cpp
@@ -348,6 +348,7 @@ void UTF8CharBuffer::setupEncoding() {
 
         // BOM is not part of the text in any encoding
         raw.erase(raw.begin(), raw.begin() + 3);
+        checkedBOM = true;
 
     } else if (hasBOM("\xFF\xFE\x00\x00", 4) || hasBOM("\x00\x00\xFE\xFF", 4)) {
 
@@ -373,6 +374,10 @@ void UTF8CharBuffer::setupEncoding() {
     if (encoding.empty())
         encoding = "ISO-8859-1";
 
+    // BOM is removed by the conversion itself
+    if (encoding == "UTF-16" || encoding == "UTF-32")
+        checkedBOM = true;
+
     // setup encoder from encoding to UTF-8
     ic = iconv_open("UTF-8", encoding.c_str());
     if (ic == (iconv_t) -1) {
-- 
2.43.0


From 0312687957738cc77f14d7ab2dfb0610d4a0d739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:22 +0000
Subject: [PATCH 026/115] fix: a namespace with a registered prefix keeps that
 it is used by the unit

---
 src/libsrcml/srcmlns.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/srcmlns.cpp b/src/libsrcml/srcmlns.cpp
index dd21545..2bbe1d2 100644
--- a/src/libsrcml/srcmlns.cpp
+++ b/src/libsrcml/srcmlns.cpp
@@ -40,9 +40,12 @@ Namespaces& operator+=(Namespaces& namespaces, const Namespaces& otherns) {
             auto default_it = default_view.find(ns.uri);
             if (default_it == default_view.end() || it->prefix == default_it->prefix) {
 
-                view.modify(it, [ns](Namespace& thisns){ thisns.prefix = ns.prefix; thisns.flags |= ns.flags; });
+                view.modify(it, [ns](Namespace& thisns){ thisns.prefix = ns.prefix; });
             }
 
+            // flags, e.g., that the namespace is used, apply no matter the prefix
+            it->flags |= ns.flags;
+
         } else {
 
             // create a new entry for this URI
-- 
2.43.0


From 70a6b822465b86fe6734eac4704f2c563fd834b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:40 +0000
Subject: [PATCH 027/115] fix: archives in UTF-16 have one byte order mark for
 every kind of output

---
 src/libsrcml/srcml_archive.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index 3ebe397..08c3361 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -983,7 +983,7 @@ int srcml_archive_write_open_FILE(struct srcml_archive* archive, FILE* srcml_fil
     if (archive->type != SRCML_ARCHIVE_INVALID)
         return SRCML_STATUS_INVALID_IO_OPERATION;
 
-    archive->output_buffer = xmlOutputBufferCreateFile(srcml_file, xmlFindCharEncodingHandler(archive->encoding ? archive->encoding->c_str() : 0));
+    archive->output_buffer = xmlOutputBufferCreateFile(srcml_file, 0);
     if (!archive->output_buffer)
         return SRCML_STATUS_IO_ERROR;
 
@@ -1010,7 +1010,7 @@ int srcml_archive_write_open_fd(struct srcml_archive* archive, int srcml_fd) {
     if (archive->type != SRCML_ARCHIVE_INVALID)
         return SRCML_STATUS_INVALID_IO_OPERATION;
 
-    archive->output_buffer = xmlOutputBufferCreateFd(srcml_fd, xmlFindCharEncodingHandler(archive->encoding ? archive->encoding->c_str() : 0));
+    archive->output_buffer = xmlOutputBufferCreateFd(srcml_fd, 0);
     if (!archive->output_buffer)
         return SRCML_STATUS_IO_ERROR;
 
@@ -1040,7 +1040,7 @@ int srcml_archive_write_open_io(struct srcml_archive* archive, void * context, i
     if (archive->type != SRCML_ARCHIVE_INVALID)
         return SRCML_STATUS_INVALID_IO_OPERATION;
 
-    archive->output_buffer = xmlOutputBufferCreateIO(write_callback, close_callback, context, xmlFindCharEncodingHandler(archive->encoding ? archive->encoding->c_str() : 0));
+    archive->output_buffer = xmlOutputBufferCreateIO(write_callback, close_callback, context, 0);
     if (!archive->output_buffer)
         return SRCML_STATUS_IO_ERROR;
 
-- 
2.43.0


From 42a8f773b4954e784ecdd79042b3dd19a2c54b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:40 +0000
Subject: [PATCH 028/115] fix: opening an archive for reading that is already
 open leaves the input alone

---
 src/libsrcml/srcml_archive.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index 08c3361..06b2d5c 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -1100,6 +1100,9 @@ int srcml_archive_read_open_filename(struct srcml_archive* archive, const char*
     if (archive == nullptr || srcml_filename == nullptr)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
+    if (archive->type != SRCML_ARCHIVE_INVALID)
+        return SRCML_STATUS_INVALID_IO_OPERATION;
+
     std::unique_ptr<xmlParserInputBuffer> input(xmlParserInputBufferCreateFilename(srcml_filename, archive->encoding ? xmlParseCharEncoding(archive->encoding->c_str()) : XML_CHAR_ENCODING_NONE));
 
     return srcml_archive_read_open_internal(archive, std::move(input));
@@ -1121,6 +1124,9 @@ int srcml_archive_read_open_memory(struct srcml_archive* archive, const char* bu
     if (archive == nullptr || buffer == nullptr || buffer_size <= 0)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
+    if (archive->type != SRCML_ARCHIVE_INVALID)
+        return SRCML_STATUS_INVALID_IO_OPERATION;
+
     xmlCharEncoding encoding = archive->encoding ? xmlParseCharEncoding(archive->encoding->c_str()) : XML_CHAR_ENCODING_NONE;
     std::unique_ptr<xmlParserInputBuffer> input(xmlParserInputBufferCreateMem(buffer, (int)buffer_size, encoding));
 
@@ -1164,6 +1170,9 @@ int srcml_archive_read_open_FILE(struct srcml_archive* archive, FILE* srcml_file
     if (archive == nullptr || srcml_file == nullptr)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
+    if (archive->type != SRCML_ARCHIVE_INVALID)
+        return SRCML_STATUS_INVALID_IO_OPERATION;
+
     std::unique_ptr<xmlParserInputBuffer> input(xmlParserInputBufferCreateFile(srcml_file, archive->encoding ? xmlParseCharEncoding(archive->encoding->c_str()) : XML_CHAR_ENCODING_NONE));
 
     return srcml_archive_read_open_internal(archive, std::move(input));
@@ -1184,6 +1193,9 @@ int srcml_archive_read_open_fd(struct srcml_archive* archive, int srcml_fd) {
     if (archive == nullptr || srcml_fd < 0)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
+    if (archive->type != SRCML_ARCHIVE_INVALID)
+        return SRCML_STATUS_INVALID_IO_OPERATION;
+
     std::unique_ptr<xmlParserInputBuffer> input(xmlParserInputBufferCreateFd(srcml_fd, archive->encoding ? xmlParseCharEncoding(archive->encoding->c_str()) : XML_CHAR_ENCODING_NONE));
 
     return srcml_archive_read_open_internal(archive, std::move(input));
@@ -1206,6 +1218,9 @@ int srcml_archive_read_open_io(struct srcml_archive* archive, void * context, in
     if (archive == nullptr || context == nullptr || read_callback == nullptr)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
+    if (archive->type != SRCML_ARCHIVE_INVALID)
+        return SRCML_STATUS_INVALID_IO_OPERATION;
+
     std::unique_ptr<xmlParserInputBuffer> input(xmlParserInputBufferCreateIO(read_callback, close_callback, context, archive->encoding ? xmlParseCharEncoding(archive->encoding->c_str()) : XML_CHAR_ENCODING_NONE));
 
     return srcml_archive_read_open_internal(archive, std::move(input));
-- 
2.43.0


From 687dc40d535a48764bd5a746a4e91469e07c4965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:15 +0000
Subject: [PATCH 029/115] fix: an archive is read the same no matter how few
 bytes each read delivers, and without a position before its start

---
 src/libsrcml/sax2_srcsax_handler.cpp |  4 +++
 src/libsrcml/srcml_archive.cpp       | 51 ++++++++++++++++++++++++++++
 2 files changed, 55 insertions(+)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index 1d436a3..1d72f21 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -86,6 +86,10 @@ static void update_ctx(void* ctx) {
     if (state == nullptr)
         return;
 
+    // no position to update before the start of the document
+    if (state->base == nullptr || ctxt->input == nullptr)
+        return;
+
     if (state->prevconsumed != ctxt->input->consumed) {
         state->base -= ctxt->input->consumed - state->prevconsumed;
     }
diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index 06b2d5c..5492e68 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -1055,6 +1055,55 @@ int srcml_archive_write_open_io(struct srcml_archive* archive, void * context, i
  *                                                                            *
  ******************************************************************************/
 
+namespace {
+
+    // the callbacks and context of an input, and what its last read returned
+    struct input_callbacks {
+        xmlInputReadCallback read;
+        xmlInputCloseCallback close;
+        void* context;
+        int status;
+    };
+
+    /**
+     * read_complete_markup
+     * @param input an input buffer
+     *
+     * A single read of a pipe, socket, or user callback may deliver only part of what is requested, but the
+     * parser requires markup, e.g., the start of the XML declaration, to be complete in its buffer.
+     * Make the reads of the input continue to the end of markup, the requested size, or the end of the input.
+     */
+    void read_complete_markup(xmlParserInputBuffer& input) {
+
+        // memory has no reads
+        if (!input.readcallback)
+            return;
+
+        input.context = new input_callbacks{ input.readcallback, input.closecallback, input.context, 1 };
+
+        input.readcallback = [](void* context, char* buffer, int len) -> int {
+
+            auto callbacks = (input_callbacks*) context;
+
+            int size = 0;
+            while (callbacks->status > 0 && size < len && (size == 0 || buffer[size - 1] != '>')) {
+                callbacks->status = callbacks->read(callbacks->context, buffer + size, len - size);
+                if (callbacks->status > 0)
+                    size += callbacks->status;
+            }
+
+            return size > 0 ? size : callbacks->status;
+        };
+
+        input.closecallback = [](void* context) -> int {
+
+            std::unique_ptr<input_callbacks> callbacks((input_callbacks*) context);
+
+            return callbacks->close ? callbacks->close(callbacks->context) : 0;
+        };
+    }
+}
+
 /**
  * srcml_read_internal
  * @param archive a srcml_archive
@@ -1073,6 +1122,8 @@ static int srcml_archive_read_open_internal(struct srcml_archive* archive, std::
 
     try {
 
+        read_complete_markup(*input);
+
         archive->reader = new srcml_sax2_reader(archive, std::move(input));
 
     } catch(...) {
-- 
2.43.0


From ab0fb8d42447c633153e944f6a33f4c1d7f16f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:43 +0000
Subject: [PATCH 030/115] fix: the source encoding attribute of a unit that was
 read is written once, and kept

---
 src/parser/srcMLOutput.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/parser/srcMLOutput.cpp b/src/parser/srcMLOutput.cpp
index 1184d7e..444e735 100644
--- a/src/parser/srcMLOutput.cpp
+++ b/src/parser/srcMLOutput.cpp
@@ -310,9 +310,16 @@ void srcMLOutput::startUnit(const char* language, const char* revision,
                             const std::vector<std::string> & attributes,
                             bool output_macrolist) {
 
+    // source encoding from a srcML unit that was read is one of its attributes
+    const char* readencoding = nullptr;
+    for (std::vector<std::string>::size_type pos = 0; pos < attributes.size(); pos += 2) {
+        if (attributes[pos] == UNIT_ATTRIBUTE_SOURCE_ENCODING)
+            readencoding = attributes[pos + 1].c_str();
+    }
+
     // go with default encoding
     if (!encoding || encoding[0] == '\0') {
-        encoding = "UTF-8";
+        encoding = readencoding ? readencoding : "UTF-8";
     }
 
     didwrite = true;
@@ -395,6 +402,11 @@ void srcMLOutput::startUnit(const char* language, const char* revision,
     }
 
     for(std::vector<std::string>::size_type pos = 0; pos < attributes.size(); pos += 2) {
+
+        // already output
+        if (isoption(options, SRCML_OPTION_STORE_ENCODING) && attributes[pos] == UNIT_ATTRIBUTE_SOURCE_ENCODING)
+            continue;
+
         xmlTextWriterWriteAttribute(xout, BAD_CAST attributes[pos].c_str(), BAD_CAST attributes[pos + 1].c_str());
     }
 
-- 
2.43.0


From 106e20df07f514307b564ff9c2ccf0eb3bfd2b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:34 +0000
Subject: [PATCH 031/115] fix: a unit whose language is that of its file name
 has the language attribute

---
 src/libsrcml/srcml_translator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/srcml_translator.cpp b/src/libsrcml/srcml_translator.cpp
index 2977be6..4b91de0 100644
--- a/src/libsrcml/srcml_translator.cpp
+++ b/src/libsrcml/srcml_translator.cpp
@@ -272,7 +272,10 @@ bool srcml_translator::add_start_unit(const srcml_unit * unit){
 
     first = false;
 
-    out.startUnit(optional_to_c_str(unit->language, optional_to_c_str(unit->archive->language)),
+    // language may be based on the extension of the filename
+    const char* derived_language = unit->derived_language != SRCML_LANGUAGE_NONE ? Language(unit->derived_language).getLanguageString() : nullptr;
+
+    out.startUnit(optional_to_c_str(unit->language, optional_to_c_str(unit->archive->language, derived_language)),
                   revision,
                   optional_to_c_str(unit->url),
                   optional_to_c_str(unit->filename),
-- 
2.43.0


From b161244d154cccee2ded3eb774f4da86deae86cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:29 +0000
Subject: [PATCH 032/115] fix: ampersands in attributes and namespaces of an
 archive that is read are not escaped a second time

---
 src/libsrcml/sax2_srcsax_handler.cpp  | 10 +++++++++-
 src/libsrcml/srcml_reader_handler.hpp |  8 ++++----
 src/libsrcml/unit_utilities.cpp       | 19 ++++++++++++++++++-
 src/libsrcml/unit_utilities.hpp       |  6 ++++++
 4 files changed, 37 insertions(+), 6 deletions(-)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index 1d72f21..734fee0 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -302,7 +302,15 @@ void start_root(void* ctx, const xmlChar* localname, const xmlChar* prefix, cons
                 state->rootnsstr += (const char*) namespaces[i];
             }
             state->rootnsstr += "=\"";
-            state->rootnsstr += (const char*) namespaces[i + 1];
+            for (const char* p = (const char*) namespaces[i + 1]; *p; ++p) {
+                // ampersands are still escaped
+                if (*p == '<')
+                    state->rootnsstr += "&lt;";
+                else if (*p == '"')
+                    state->rootnsstr += "&quot;";
+                else
+                    state->rootnsstr += *p;
+            }
             state->rootnsstr += "\" ";
         }
     }
diff --git a/src/libsrcml/srcml_reader_handler.hpp b/src/libsrcml/srcml_reader_handler.hpp
index e71f769..91021b7 100644
--- a/src/libsrcml/srcml_reader_handler.hpp
+++ b/src/libsrcml/srcml_reader_handler.hpp
@@ -272,7 +272,7 @@ public :
         // collect attributes
         for (int pos = 0; pos < num_attributes; ++pos) {
             std::string attribute = (const char*) attributes[pos * 5];
-            std::string value((const char *)attributes[pos * 5 + 3], attributes[pos * 5 + 4] - attributes[pos * 5 + 3]);
+            std::string value = attribute_value(attributes, pos);
 
             // Note: these are ignore instead of placing in attributes.
             if (attribute == "timestamp")
@@ -327,7 +327,7 @@ public :
         for (int pos = 0; pos < num_namespaces; ++pos) {
 
             std::string prefix = (const char*) namespaces[pos * 2] ? (const char*) namespaces[pos * 2] : "";
-            std::string uri = (const char*) namespaces[pos * 2 + 1] ? (const char*) namespaces[pos * 2 + 1] : "";
+            std::string uri = unescape_value((const char*) namespaces[pos * 2 + 1] ? (const char*) namespaces[pos * 2 + 1] : "");
 
             srcml_uri_normalize(uri);
 
@@ -527,9 +527,9 @@ public :
             for (int pos = 0; pos < num_attributes; ++pos) {
 
                 if (strcmp((const char*) attributes[ATTR_LOCALNAME(pos)], "token") == 0)
-                    token.append((const char*) attributes[ATTR_VALUE_START(pos)], attributes[ATTR_VALUE_END(pos)] - attributes[ATTR_VALUE_START(pos)]);
+                    token.append(attribute_value(attributes, pos));
                 else if (strcmp((const char*) attributes[ATTR_LOCALNAME(pos)], "type") == 0)
-                    type.append((const char*) attributes[ATTR_VALUE_START(pos)], attributes[ATTR_VALUE_END(pos)] - attributes[ATTR_VALUE_START(pos)]);
+                    type.append(attribute_value(attributes, pos));
             }
 
             if (token != "" && type != "") {
diff --git a/src/libsrcml/unit_utilities.cpp b/src/libsrcml/unit_utilities.cpp
index f27bf86..fba763a 100644
--- a/src/libsrcml/unit_utilities.cpp
+++ b/src/libsrcml/unit_utilities.cpp
@@ -24,6 +24,23 @@
 #include <libxml/parserInternals.h>
 #include <stack>
 
+// Actual value of an attribute or namespace value from libxml2 SAX2 handlers
+std::string unescape_value(std::string value) {
+
+    // when entities are not replaced, libxml2 leaves every ampersand as this character reference
+    const std::string AMPERSAND = "&#38;";
+    for (auto start = value.find(AMPERSAND); start != std::string::npos; start = value.find(AMPERSAND, start + 1))
+        value.replace(start, AMPERSAND.size(), "&");
+
+    return value;
+}
+
+// Value of the attribute at a position in attributes of libxml2 SAX2 handlers
+std::string attribute_value(const xmlChar** attributes, int pos) {
+
+    return unescape_value(std::string((const char*) attributes[pos * 5 + 3], attributes[pos * 5 + 4] - attributes[pos * 5 + 3]));
+}
+
 // Update unit attributes with xml parsed attributes
 void unit_update_attributes(srcml_unit* unit, int num_attributes, const xmlChar** attributes) {
 
@@ -31,7 +48,7 @@ void unit_update_attributes(srcml_unit* unit, int num_attributes, const xmlChar*
     for (int pos = 0; pos < num_attributes; ++pos) {
 
         std::string attribute = (const char*) attributes[pos * 5];
-        std::string value((const char *)attributes[pos * 5 + 3], attributes[pos * 5 + 4] - attributes[pos * 5 + 3]);
+        std::string value = attribute_value(attributes, pos);
 
         if (attribute == "timestamp")
             srcml_unit_set_timestamp(unit, value.c_str());
diff --git a/src/libsrcml/unit_utilities.hpp b/src/libsrcml/unit_utilities.hpp
index 31a6b6b..802d581 100644
--- a/src/libsrcml/unit_utilities.hpp
+++ b/src/libsrcml/unit_utilities.hpp
@@ -27,6 +27,12 @@
 #include <srcml.h>
 #include <libxml/parser.h>
 
+// Actual value of an attribute or namespace value from libxml2 SAX2 handlers
+std::string unescape_value(std::string value);
+
+// Value of the attribute at a position in attributes of libxml2 SAX2 handlers
+std::string attribute_value(const xmlChar** attributes, int pos);
+
 // Update unit attributes with xml parsed attributes
 void unit_update_attributes(srcml_unit* unit, int num_attributes, const xmlChar** attributes);
 
-- 
2.43.0


From 85cdbf401a7d2bdeb24f7323bd235f1f8aa82737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:22 +0000
Subject: [PATCH 033/115] fix: the line count of a solitary unit that is read
 includes the text before the first element

---
 src/libsrcml/sax2_srcsax_handler.cpp  | 1 +
 src/libsrcml/srcml_reader_handler.hpp | 2 --
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index 734fee0..7735ea4 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -522,6 +522,7 @@ void start_unit(void* ctx, const xmlChar* localname, const xmlChar* prefix, cons
 
     // start to collect source
     state->unitsrc.clear();
+    state->loc = 0;
 
     SRCSAX_DEBUG_END(localname);
 }
diff --git a/src/libsrcml/srcml_reader_handler.hpp b/src/libsrcml/srcml_reader_handler.hpp
index 91021b7..db7e3b0 100644
--- a/src/libsrcml/srcml_reader_handler.hpp
+++ b/src/libsrcml/srcml_reader_handler.hpp
@@ -397,8 +397,6 @@ public :
             pause(lock);
         }
 
-        state->loc = 0;
-
         state->collect_unit_body = collect_unit_body;
 
         if (terminate)
-- 
2.43.0


From 98735b7075a4bbb9744e87b9723ca22a66fd8ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:22 +0000
Subject: [PATCH 034/115] fix: all namespaces declared on a unit that is read,
 with their prefixes, are declared when the unit is written

---
 src/libsrcml/sax2_srcsax_handler.cpp  |  9 ------
 src/libsrcml/sax2_srcsax_handler.hpp  |  2 --
 src/libsrcml/srcml_reader_handler.hpp | 40 +++++++++++++++------------
 3 files changed, 22 insertions(+), 29 deletions(-)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index 7735ea4..b3db0b2 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -444,15 +444,6 @@ void start_unit(void* ctx, const xmlChar* localname, const xmlChar* prefix, cons
     if (state == nullptr)
         return;
 
-    // collect cpp prefix, which is only for this unit
-    state->cpp_prefix = boost::none;
-    for (int i = 0; i < nb_namespaces; ++i) {
-
-        if (std::string((const char*) namespaces[i * 2 + 1]) == SRCML_CPP_NS_URI) {
-            state->cpp_prefix = namespaces[i * 2] ? (const char*) namespaces[i * 2] : "";
-        }
-    }
-
     update_ctx(ctx);
 
     SRCSAX_DEBUG_START(localname);
diff --git a/src/libsrcml/sax2_srcsax_handler.hpp b/src/libsrcml/sax2_srcsax_handler.hpp
index 79d6786..c5bad23 100644
--- a/src/libsrcml/sax2_srcsax_handler.hpp
+++ b/src/libsrcml/sax2_srcsax_handler.hpp
@@ -99,8 +99,6 @@ struct sax2_srcsax_handler {
 
     int loc = 0;
 
-    boost::optional<std::string> cpp_prefix;
-
     bool rootcalled = false;
 };
 
diff --git a/src/libsrcml/srcml_reader_handler.hpp b/src/libsrcml/srcml_reader_handler.hpp
index db7e3b0..c4bcead 100644
--- a/src/libsrcml/srcml_reader_handler.hpp
+++ b/src/libsrcml/srcml_reader_handler.hpp
@@ -382,6 +382,28 @@ public :
         // collect attributes
         unit_update_attributes(unit, num_attributes, attributes);
 
+        // collect namespaces declared on the unit, so the prefixes used in the unit are declared when it is written
+        for (int pos = 0; pos < num_namespaces; ++pos) {
+
+            std::string prefix = (const char*) namespaces[pos * 2] ? (const char*) namespaces[pos * 2] : "";
+            std::string uri = unescape_value((const char*) namespaces[pos * 2 + 1] ? (const char*) namespaces[pos * 2 + 1] : "");
+
+            srcml_uri_normalize(uri);
+
+            // namespaces probably aren't created yet
+            if (!unit->namespaces)
+                unit->namespaces = default_namespaces;
+
+            auto&& view = unit->namespaces->get<nstags::uri>();
+            auto it = view.find(uri);
+            if (it == view.end()) {
+                unit->namespaces->push_back({ prefix, uri, NS_USED | NS_STANDARD });
+                continue;
+            }
+
+            view.modify(it, [&prefix](Namespace& thisns){ thisns.prefix = prefix; thisns.flags |= NS_USED; });
+        }
+
         auto ctxt = (xmlParserCtxtPtr) get_controller().getContext()->libxml2_context;
         auto state = (sax2_srcsax_handler*) ctxt->_private;
 
@@ -468,24 +490,6 @@ public :
             unit->src = std::move(state->unitsrc);
             unit->loc = state->loc;
 
-            // update provisional cpp prefix
-            if (state->cpp_prefix) {
-
-                // namespaces probably aren't create yet
-                if (!unit->namespaces) {
-                    unit->namespaces = default_namespaces;
-                }
-
-                // set the found prefix, plus mark it as used
-                auto&& view = unit->namespaces->get<nstags::uri>();
-                auto it = view.find(SRCML_CPP_NS_URI);
-                if (it != view.end()) {
-                    view.modify(it, [](Namespace& thisns){ thisns.flags |= NS_USED; });
-                } else {
-                    unit->namespaces->push_back({ state->cpp_prefix->c_str(), SRCML_CPP_NS_URI, NS_USED | NS_STANDARD });
-                }
-            }
-
             // pause
             std::unique_lock<std::mutex> lock(mutex);
             if (terminate) stop_parser();
-- 
2.43.0


From 9468118b6b2d84908204e57fcf7d9cad20295f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:01 +0000
Subject: [PATCH 035/115] fix: the outer srcML of a unit omits its url
 attribute, not attribute text that looks like one

---
 src/libsrcml/srcml_unit.cpp | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index 5b0836d..59504ff 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -402,23 +402,28 @@ const char* srcml_unit_get_srcml_outer(struct srcml_unit* unit) {
     // construct the fragment from the full srcML, excluding the inserted root tag stuff (including namespaces)
     if (!unit->srcml_fragment) {
 
-        // find end of unit tag, e.g., end of "<unit ...>" or "<src:unit ...>"
-        std::string prefix = "";
-        auto pos = unit->srcml.find(">");
-
         int insert_attr_begin = 0;
         int insert_attr_end = 0;
 
-        if (pos != std::string::npos) {
-            // find url attribute
-            std::string s(unit->srcml, 0, pos);
-            auto pos2 = s.find(" url=");
-            if (pos2 != std::string::npos) {
-                insert_attr_begin = (int) pos2;
-                pos2 += 6;
-                auto pos3 = s.find("\"", pos2);
-                pos3 += 1;
-                insert_attr_end = (int) pos3;
+        // find url attribute in the unit tag, and not in the value of another attribute
+        char quote = 0;
+        for (std::string::size_type pos = 0; pos < unit->srcml.size(); ++pos) {
+
+            char c = unit->srcml[pos];
+            if (quote) {
+                if (c != quote)
+                    continue;
+                quote = 0;
+                if (insert_attr_begin) {
+                    insert_attr_end = (int) pos + 1;
+                    break;
+                }
+            } else if (c == '>') {
+                break;
+            } else if (c == '"' || c == '\'') {
+                quote = c;
+            } else if (unit->srcml.compare(pos, 5, " url=") == 0) {
+                insert_attr_begin = (int) pos;
             }
         }
 
-- 
2.43.0


From 4756a2e7612f7324b449b1196a478d81e5821e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:01 +0000
Subject: [PATCH 036/115] fix: the processing instruction of an archive is
 available when it is read

---
 src/libsrcml/cppCallbackAdapter.hpp  |  1 +
 src/libsrcml/sax2_srcsax_handler.cpp |  9 ++++++++-
 src/libsrcml/srcsax_handler.hpp      | 10 ++++++++++
 3 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/cppCallbackAdapter.hpp b/src/libsrcml/cppCallbackAdapter.hpp
index 59ca6d1..3de0894 100644
--- a/src/libsrcml/cppCallbackAdapter.hpp
+++ b/src/libsrcml/cppCallbackAdapter.hpp
@@ -60,6 +60,7 @@ public:
         handler.end_root = end_root;
         handler.end_unit = end_unit;
         handler.meta_tag = meta_tag;
+        handler.processing_instruction = processing_instruction;
 
         return handler;
     }
diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index b3db0b2..0fd3b96 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -899,7 +899,14 @@ void processing_instruction(void* ctx, const xmlChar* target, const xmlChar* dat
 
     SRCSAX_DEBUG_START("");
 
-    if (state->collect_unit_body) {
+    if (state->mode == START) {
+
+        // before the root, so of the document
+        state->context->handler->processing_instruction(state->context, (const char*) target, data ? (const char*) data : "");
+
+        state->base = ctxt->input->cur;
+
+    } else if (state->collect_unit_body) {
 
         // start of a long processing instruction may no longer be in the input buffer
         state->unitsrcml.append("<?");
diff --git a/src/libsrcml/srcsax_handler.hpp b/src/libsrcml/srcsax_handler.hpp
index a7de24a..dd01903 100644
--- a/src/libsrcml/srcsax_handler.hpp
+++ b/src/libsrcml/srcsax_handler.hpp
@@ -120,6 +120,16 @@ struct srcsax_handler {
     void (*meta_tag)(srcsax_context* context, const char* localname, const char* prefix, const char* URI,
                            int num_namespaces, const xmlChar** namespaces, int num_attributes,
                            const xmlChar** attributes);
+
+    /**
+     * processing_instruction
+     * @param context a srcSAX context
+     * @param target the processing instruction target.
+     * @param data the processing instruction data.
+     *
+     * Signature for srcSAX handler function for a processing instruction before the root element.
+     */
+    void (*processing_instruction)(srcsax_context* context, const char* target, const char* data);
 };
 
 #endif
-- 
2.43.0


From e595f6d41daa7647e6493795d2cf26040b9e05c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:01 +0000
Subject: [PATCH 037/115] fix: what comes before the root of a document is not
 part of the start tag of a solitary unit that is read

---
 src/libsrcml/sax2_srcsax_handler.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index 0fd3b96..b3fa89a 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -265,6 +265,13 @@ void start_root(void* ctx, const xmlChar* localname, const xmlChar* prefix, cons
 
     state->mode = ROOT;
 
+    // after a processing instruction, comment, etc. there may be text before the start tag
+    auto start = ctxt->input->cur;
+    while (start > ctxt->input->base && *start != '<')
+        --start;
+    if (*start == '<')
+        state->base = start;
+
     // save the root start tag because we are going to parse it again to generate proper start_root() and start_unit()
     // calls after we know whether this is an archive or not
     state->rootstarttag.reserve(ctxt->input->cur - state->base + 2);
-- 
2.43.0


From 9eb8154bf93b6133fa1be9bb49131de0aa1b9e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:32 +0000
Subject: [PATCH 038/115] fix: Tab stop of the archive also applies inside
 comments and strings

---
 src/libsrcml/srcml_translator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libsrcml/srcml_translator.cpp b/src/libsrcml/srcml_translator.cpp
index 4b91de0..878398b 100644
--- a/src/libsrcml/srcml_translator.cpp
+++ b/src/libsrcml/srcml_translator.cpp
@@ -133,6 +133,7 @@ void srcml_translator::translate(UTF8CharBuffer* parser_input) {
         // pure block comment lexer
         CommentTextLexer textlexer(lexer.getInputState());
         textlexer.setSelector(&selector);
+        textlexer.setTabsize((int)tabsize);
 
         // switching between lexers
         selector.addInputStream(&lexer, "main");
-- 
2.43.0


From 2026da8b3a975cf370581ddfb8fe88bfe23b3799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:32 +0000
Subject: [PATCH 039/115] fix: End positions are not those of lookahead or of a
 directive that follows

---
 src/parser/StreamMLParser.hpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/parser/StreamMLParser.hpp b/src/parser/StreamMLParser.hpp
index 4c222ff..ab9ea83 100644
--- a/src/parser/StreamMLParser.hpp
+++ b/src/parser/StreamMLParser.hpp
@@ -320,9 +320,11 @@ private:
         // rest of consume process
         srcMLParser::consume();
 
-        // record for end position of start elements
-        lastline = LT(1)->getLine();
-        lastcolumn = LT(1)->getColumn() - 1;
+        // record for end position of start elements, but not for what is consumed only in lookahead
+        if (!srcMLParser::inputState->guessing) {
+            lastline = LT(1)->getLine();
+            lastcolumn = LT(1)->getColumn() - 1;
+        }
 
         // consume any skipped tokens
         while (consumeSkippedToken())
@@ -509,6 +511,8 @@ private:
 
             // start preprocessor handling
             inskip = true;
+            const auto savedline = lastline;
+            const auto savedcolumn = lastcolumn;
 
             // use preprocessor token buffers
             pouttb = &pretb;
@@ -535,6 +539,8 @@ private:
 
             // stop preprocessor handling
             inskip = false;
+            lastline = savedline;
+            lastcolumn = savedcolumn;
 
             return true;
         }
@@ -543,6 +549,8 @@ private:
         if (srcMLParser::LA(1) == srcMLParser::MACRO_NAME) {
 
             inskip = true;
+            const auto savedline = lastline;
+            const auto savedcolumn = lastcolumn;
 
             // use preprocessor token buffers
             pouttb = &pretb;
@@ -568,6 +576,8 @@ private:
             pretb.clear();
 
             inskip = false;
+            lastline = savedline;
+            lastcolumn = savedcolumn;
             return true;
 
         }
@@ -576,6 +586,8 @@ private:
 
             // start preprocessor handling
             inskip = true;
+            const auto savedline = lastline;
+            const auto savedcolumn = lastcolumn;
 
             // use preprocessor token buffers
             pouttb = &pretb;
@@ -602,6 +614,8 @@ private:
 
             // stop preprocessor handling
             inskip = false;
+            lastline = savedline;
+            lastcolumn = savedcolumn;
 
             return true;
         }
-- 
2.43.0


From 41f327eb5b37f988f57ac86ceed9634bb41d5886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:32 +0000
Subject: [PATCH 040/115] fix: An unterminated comment does not take the end
 position of what it follows

---
 src/parser/StreamMLParser.hpp | 53 ++++++++++++++++++++++++++++-------
 1 file changed, 43 insertions(+), 10 deletions(-)

diff --git a/src/parser/StreamMLParser.hpp b/src/parser/StreamMLParser.hpp
index ab9ea83..004e88e 100644
--- a/src/parser/StreamMLParser.hpp
+++ b/src/parser/StreamMLParser.hpp
@@ -220,6 +220,10 @@ private:
 
     inline void pushSSkipToken(int token) {
 
+        // don't push any tokens during guessing stage
+        if (srcMLParser::inputState->guessing)
+            return;
+
         // push a new start token
         auto ntoken = antlr::RefToken(StartTokenFactory(token));
         ntoken->setLine(LT(1)->getLine());
@@ -294,6 +298,10 @@ private:
 
     inline void pushESkipToken(int token) {
 
+        // don't push any tokens during guessing stage
+        if (srcMLParser::inputState->guessing)
+            return;
+
         // push a new end token
         pushSkipToken(antlr::RefToken(EndTokenFactory(token)));
 
@@ -331,6 +339,27 @@ private:
             ;
     }
 
+    /**
+     * openComment
+     * @param token the start token of the comment
+     *
+     * Record the start of a comment, unless only in lookahead.
+     */
+    inline void openComment(int token) {
+        if (!srcMLParser::inputState->guessing)
+            open_comments.push(token);
+    }
+
+    /**
+     * closeComment
+     *
+     * Record the end of a comment, unless only in lookahead.
+     */
+    inline void closeComment() {
+        if (!srcMLParser::inputState->guessing && !open_comments.empty())
+            open_comments.pop();
+    }
+
     /**
      * consumeSkippedTokens
      *
@@ -361,7 +390,7 @@ private:
                 pushSkipToken();
                 srcMLParser::consume();
 
-                open_comments.push(srcMLParser::SCOMMENT);
+                openComment(srcMLParser::SCOMMENT);
 
                 break;
 
@@ -371,13 +400,13 @@ private:
                 pushSkipToken();
                 srcMLParser::consume();
 
-                open_comments.push(srcMLParser::SLINE_DOXYGEN_COMMENT);
+                openComment(srcMLParser::SLINE_DOXYGEN_COMMENT);
 
                 break;
 
             case srcMLParser::LINE_DOXYGEN_COMMENT_END:
 
-                open_comments.pop();
+                closeComment();
 
                 if (srcMLParser::LT(1)->getText().back() != '\n') {
                     pushSkipToken();
@@ -401,7 +430,7 @@ private:
                 pushSkipToken();
                 srcMLParser::consume();
 
-                open_comments.push(srcMLParser::SDOXYGEN_COMMENT);
+                openComment(srcMLParser::SDOXYGEN_COMMENT);
 
                 break;
 
@@ -418,7 +447,7 @@ private:
 
             case srcMLParser::BLOCK_COMMENT_END:
 
-                open_comments.pop();
+                closeComment();
 
                 pushSkipToken();
                 srcMLParser::consume();
@@ -430,7 +459,7 @@ private:
 
             case srcMLParser::DOXYGEN_COMMENT_END:
 
-                open_comments.pop();
+                closeComment();
 
                 pushSkipToken();
                 srcMLParser::consume();
@@ -442,7 +471,7 @@ private:
 
             case srcMLParser::JAVADOC_COMMENT_END:
 
-                open_comments.pop();
+                closeComment();
 
                 pushSkipToken();
                 srcMLParser::consume();
@@ -458,7 +487,7 @@ private:
                 pushSkipToken();
                 srcMLParser::consume();
 
-                open_comments.push(srcMLParser::SJAVADOC_COMMENT);
+                openComment(srcMLParser::SJAVADOC_COMMENT);
 
                 break;
 
@@ -468,13 +497,13 @@ private:
                 pushSkipToken();
                 srcMLParser::consume();
 
-                open_comments.push(srcMLParser::SLINECOMMENT);
+                openComment(srcMLParser::SLINECOMMENT);
 
                 break;
 
             case srcMLParser::LINE_COMMENT_END:
 
-                open_comments.pop();
+                closeComment();
 
                 if (srcMLParser::LT(1)->getText().back() != '\n') {
                     pushSkipToken();
@@ -503,6 +532,10 @@ private:
             return true;
         }
 
+        // an unterminated comment ends with the input, before anything around it does
+        if (srcMLParser::LA(1) == antlr::Token::EOF_TYPE && !srcMLParser::inputState->guessing)
+            completeSkip();
+
         if (inskip)
             return false;
 
-- 
2.43.0


From c3eb8c783f444fa4f56b1d128ab712e4ea8693d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:28 +0000
Subject: [PATCH 041/115] fix: A missing transformation result or a negative
 index is an invalid argument, not a crash

---
 src/libsrcml/srcml_transform.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index c416342..69405d0 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -769,6 +769,9 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
  */
 int srcml_transform_free(struct srcml_transform_result* result) {
 
+    if (result == nullptr)
+        return SRCML_STATUS_INVALID_ARGUMENT;
+
     for (auto unit : result->units) {
         srcml_unit_free(unit);
     }
@@ -784,7 +787,7 @@ int srcml_transform_free(struct srcml_transform_result* result) {
  */
 LIBSRCML_DECL int srcml_transform_get_type(struct srcml_transform_result* result) {
 
-    return result->type;
+    return result ? result->type : SRCML_RESULT_NONE;
 }
 
 /**
@@ -794,7 +797,7 @@ LIBSRCML_DECL int srcml_transform_get_type(struct srcml_transform_result* result
 int srcml_transform_get_unit_size(struct srcml_transform_result* result) {
 
     // make sure correct result type
-    if (result->type != SRCML_RESULT_UNITS)
+    if (result == nullptr || result->type != SRCML_RESULT_UNITS)
        return 0;
 
     return (int) result->units.size();
@@ -808,10 +811,10 @@ int srcml_transform_get_unit_size(struct srcml_transform_result* result) {
 struct srcml_unit* srcml_transform_get_unit(struct srcml_transform_result* result, int index) {
 
     // make sure correct result type
-    if (result->type != SRCML_RESULT_UNITS)
+    if (result == nullptr || result->type != SRCML_RESULT_UNITS)
         return 0;
 
-    if (index >= (int) result->units.size())
+    if (index < 0 || index >= (int) result->units.size())
         return 0;
 
     return result->units[index];
@@ -824,7 +827,7 @@ struct srcml_unit* srcml_transform_get_unit(struct srcml_transform_result* resul
 const char* srcml_transform_get_string(struct srcml_transform_result* result) {
 
     // make sure correct result type
-    if (result->type != SRCML_RESULT_STRING)
+    if (result == nullptr || result->type != SRCML_RESULT_STRING)
         return 0;
 
     if (!result->stringValue)
@@ -840,7 +843,7 @@ const char* srcml_transform_get_string(struct srcml_transform_result* result) {
 double srcml_transform_get_number(struct srcml_transform_result* result) {
 
     // make sure correct result type
-    if (result->type != SRCML_RESULT_NUMBER)
+    if (result == nullptr || result->type != SRCML_RESULT_NUMBER)
         return 0;
 
     if (!result->numberValue)
@@ -856,7 +859,7 @@ double srcml_transform_get_number(struct srcml_transform_result* result) {
 int srcml_transform_get_bool(struct srcml_transform_result* result) {
 
     // make sure correct result type
-    if (result->type != SRCML_RESULT_BOOLEAN)
+    if (result == nullptr || result->type != SRCML_RESULT_BOOLEAN)
         return -1;
 
     if (!result->boolValue)
-- 
2.43.0


From bb87452fd2305e3b42ec2f3d3230972101742b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:43 +0000
Subject: [PATCH 042/115] fix: An invalid stylesheet or schema is an error
 status, not the end of the process

---
 src/libsrcml/relaxngTransformation.cpp |  8 +++++---
 src/libsrcml/srcml_transform.cpp       | 15 +++++++++++++--
 src/libsrcml/xsltTransformation.cpp    | 16 +++++++++-------
 3 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/libsrcml/relaxngTransformation.cpp b/src/libsrcml/relaxngTransformation.cpp
index fc9f286..303d27a 100644
--- a/src/libsrcml/relaxngTransformation.cpp
+++ b/src/libsrcml/relaxngTransformation.cpp
@@ -22,6 +22,8 @@
 
 #include <relaxngTransformation.hpp>
 
+#include <stdexcept>
+
 /**
  * relaxngTransformation
  * @param options list of srcML options
@@ -34,15 +36,15 @@ relaxngTransformation::relaxngTransformation(/* OPTION_TYPE& options, */ xmlDocP
 
     relaxng_parser_ctxt = decltype(relaxng_parser_ctxt)(xmlRelaxNGNewDocParserCtxt(relaxng));
     if (relaxng_parser_ctxt == nullptr)
-        throw;
+        throw std::invalid_argument("Invalid RelaxNG schema");
 
     rng = decltype(rng)(xmlRelaxNGParse(relaxng_parser_ctxt.get()));
     if (rng == nullptr)
-        throw;
+        throw std::invalid_argument("Invalid RelaxNG schema");
 
     rngctx = decltype(rngctx)(xmlRelaxNGNewValidCtxt(rng.get()));
     if (rngctx == nullptr)
-        throw;
+        throw std::invalid_argument("Invalid RelaxNG schema");
 }
 
 /**
diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index 69405d0..8162f3e 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -40,6 +40,7 @@
 #include <unit_utilities.hpp>
 
 #include <algorithm>
+#include <stdexcept>
 #include <vector>
 #include <boost/optional.hpp>
 
@@ -191,7 +192,13 @@ static int srcml_append_transform_xslt_internal(srcml_archive* archive, std::uni
     if (archive == NULL || doc == 0)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
-    archive->transformations.push_back(std::unique_ptr<Transformation>(new xsltTransformation(doc.release(), std::vector<std::string>())));
+    // stylesheet takes over the document only when it is valid
+    try {
+        archive->transformations.push_back(std::unique_ptr<Transformation>(new xsltTransformation(doc.get(), std::vector<std::string>())));
+    } catch (const std::exception&) {
+        return SRCML_STATUS_INVALID_ARGUMENT;
+    }
+    doc.release();
 
     return SRCML_STATUS_OK;
 }
@@ -302,7 +309,11 @@ static int srcml_append_transform_relaxng_internal(srcml_archive* archive, xmlDo
     if (archive == NULL || doc == 0)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
-    archive->transformations.push_back(std::unique_ptr<Transformation>(new relaxngTransformation(doc)));
+    try {
+        archive->transformations.push_back(std::unique_ptr<Transformation>(new relaxngTransformation(doc)));
+    } catch (const std::exception&) {
+        return SRCML_STATUS_INVALID_ARGUMENT;
+    }
 
     return SRCML_STATUS_OK;
 }
diff --git a/src/libsrcml/xsltTransformation.cpp b/src/libsrcml/xsltTransformation.cpp
index 02a248d..885e67a 100644
--- a/src/libsrcml/xsltTransformation.cpp
+++ b/src/libsrcml/xsltTransformation.cpp
@@ -27,6 +27,8 @@
 
 #include <srcml_sax2_utilities.hpp>
 
+#include <stdexcept>
+
 #ifdef DLLOAD
 #include <dlfcn.h>
 #else
@@ -57,7 +59,7 @@ xsltTransformation::xsltTransformation(/* OPTION_TYPE& options, */ xmlDocPtr xsl
     libxslt_handle = dlopen_libxslt();
     if (!libxslt_handle) {
         fprintf(stderr, "Unable to open libxslt library\n");
-        throw;
+        throw std::runtime_error("Unable to load libxslt");
     }
 
     char* error;
@@ -67,7 +69,7 @@ xsltTransformation::xsltTransformation(/* OPTION_TYPE& options, */ xmlDocPtr xsl
     if ((error = dlerror()) != NULL) {
         dlclose(libxslt_handle);
         libxslt_handle = 0;
-        throw;
+        throw std::runtime_error("Unable to load libxslt");
     }
 
     dlerror();
@@ -75,7 +77,7 @@ xsltTransformation::xsltTransformation(/* OPTION_TYPE& options, */ xmlDocPtr xsl
     if ((error = dlerror()) != NULL) {
         dlclose(libxslt_handle);
         libxslt_handle = 0;
-        throw;
+        throw std::runtime_error("Unable to load libxslt");
     }
 
     dlerror();
@@ -83,7 +85,7 @@ xsltTransformation::xsltTransformation(/* OPTION_TYPE& options, */ xmlDocPtr xsl
     if ((error = dlerror()) != NULL) {
         dlclose(libxslt_handle);
         libxslt_handle = 0;
-        throw;
+        throw std::runtime_error("Unable to load libxslt");
     }
 
     dlerror();
@@ -91,7 +93,7 @@ xsltTransformation::xsltTransformation(/* OPTION_TYPE& options, */ xmlDocPtr xsl
     if ((error = dlerror()) != NULL) {
         dlclose(libxslt_handle);
         libxslt_handle = 0;
-        throw;
+        throw std::runtime_error("Unable to load libxslt");
     }
 
     libexslt_handle = dlopen_libexslt();
@@ -103,7 +105,7 @@ xsltTransformation::xsltTransformation(/* OPTION_TYPE& options, */ xmlDocPtr xsl
     *(void **) (&exsltRegisterAll) = dlsym(libexslt_handle, "exsltRegisterAll");
     if ((error = dlerror()) != NULL) {
         dlclose(libexslt_handle);
-        throw;
+        throw std::runtime_error("Unable to load libxslt");
     }
 #endif
 
@@ -113,7 +115,7 @@ xsltTransformation::xsltTransformation(/* OPTION_TYPE& options, */ xmlDocPtr xsl
     // parse the stylesheet
     stylesheet = xsltParseStylesheetDoc(xslt);
     if (!stylesheet)
-        throw;
+        throw std::invalid_argument("Invalid XSLT stylesheet");
 }
 
 /**
-- 
2.43.0


From 003497e691ab0a11f02056c13fcbafe3457b746f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:34 +0000
Subject: [PATCH 043/115] fix: Results of transformations are complete,
 well-formed, and replace the unit when no result is asked for

---
 src/libsrcml/Transformation.hpp        |  14 +-
 src/libsrcml/relaxngTransformation.cpp |   6 +-
 src/libsrcml/srcml_transform.cpp       | 390 +++++++++++++++++--------
 src/libsrcml/xpathTransformation.cpp   |  13 +-
 src/libsrcml/xsltTransformation.cpp    |  43 +--
 5 files changed, 298 insertions(+), 168 deletions(-)

diff --git a/src/libsrcml/Transformation.hpp b/src/libsrcml/Transformation.hpp
index 5c1385b..695abef 100644
--- a/src/libsrcml/Transformation.hpp
+++ b/src/libsrcml/Transformation.hpp
@@ -33,15 +33,23 @@
 #include <srcml.h>
 
 struct TransformationResult {
-    TransformationResult(xmlNodeSetPtr nodeset = nullptr, bool wrapped = false)
-        : nodeset(nodeset), unitWrapped(wrapped) {}
+    TransformationResult(xmlNodeSetPtr nodeset = nullptr)
+        : nodeset(nodeset) {}
+
+    // result of a transformation that could not be performed
+    static TransformationResult failure() {
+        TransformationResult result;
+        result.failed = true;
+        return result;
+    }
+
     int nodeType = 0;
     std::unique_ptr<xmlNodeSet> nodeset;
     double numberValue = 0.0;
     bool boolValue = false;
     std::string stringValue;
-    bool unitWrapped = false;
     std::shared_ptr<xmlDoc> doc;
+    bool failed = false;
 };
 
 /**
diff --git a/src/libsrcml/relaxngTransformation.cpp b/src/libsrcml/relaxngTransformation.cpp
index 303d27a..65d2363 100644
--- a/src/libsrcml/relaxngTransformation.cpp
+++ b/src/libsrcml/relaxngTransformation.cpp
@@ -56,13 +56,15 @@ relaxngTransformation::relaxngTransformation(/* OPTION_TYPE& options, */ xmlDocP
  */
 TransformationResult relaxngTransformation::relaxngTransformation::apply(xmlDocPtr doc, int /* position */) const {
 
-    // 0 means it validated
+    // 0 means it validated, negative that it could not be determined
     int n = xmlRelaxNGValidateDoc(rngctx.get(), doc);
+    if (n < 0)
+        return TransformationResult::failure();
     if (n != 0)
         return TransformationResult();
 
     // transformation result is nodeset with single unit, and the unit is wrapped
-    TransformationResult result(xmlXPathNodeSetCreate(xmlDocGetRootElement(doc)), true);
+    TransformationResult result(xmlXPathNodeSetCreate(xmlDocGetRootElement(doc)));
     result.nodeType = SRCML_RESULT_UNITS;
     return result;
 }
diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index 8162f3e..239c820 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -478,45 +478,157 @@ int srcml_clear_transforms(srcml_archive* archive) {
     return SRCML_STATUS_OK;
 }
 
-static bool usesURI(xmlNode* cur_node, const std::string& URI);
+/**
+ * Does the tree use the namespace in an element or an attribute (with a prefix)
+ */
+static bool usesURI(const xmlNode* node, const std::string& URI) {
 
-static bool usesURIChildren(xmlNode* a_node, const std::string& URI) {
+    if (node->type != XML_ELEMENT_NODE)
+        return false;
 
-    for (xmlNode* cur_node = a_node; cur_node; cur_node = cur_node->next) {
+    if (node->ns && node->ns->prefix && URI == (const char*) node->ns->href)
+        return true;
 
-        if (cur_node->ns && cur_node->ns->prefix && URI == (const char*) cur_node->ns->href) {
+    for (auto attr = node->properties; attr; attr = attr->next) {
+        if (attr->ns && attr->ns->href && URI == (const char*) attr->ns->href)
             return true;
-        }
+    }
 
-        if (usesURIChildren(cur_node->children, URI))
+    for (auto child = node->children; child; child = child->next) {
+        if (usesURI(child, URI))
             return true;
     }
 
     return false;
 }
 
-static bool usesURI(xmlNode* cur_node, const std::string& URI) {
+/**
+ * Is the namespace declared on the node
+ */
+static bool declaresNamespace(const xmlNode* node, const xmlNs* ns) {
 
-    if (cur_node->ns && cur_node->ns->prefix && URI == (const char*) cur_node->ns->href) {
-        return true;
+    for (auto p = node->nsDef; p; p = p->next) {
+        if (xmlStrEqual(p->prefix, ns->prefix) && xmlStrEqual(p->href, ns->href))
+            return true;
     }
 
-    return usesURIChildren(cur_node->children, URI);
+    return false;
+}
+
+/**
+ * The result of one transformation as the input document of the next
+ *
+ * @returns The document, or null if the node can not be in a document by itself
+ */
+static std::shared_ptr<xmlDoc> resultDocument(xmlNodePtr node) {
+
+    if (node->type == XML_ATTRIBUTE_NODE || node->type == XML_NAMESPACE_DECL)
+        return nullptr;
+
+    std::shared_ptr<xmlDoc> doc(xmlNewDoc(BAD_CAST "1.0"), [](xmlDoc* doc) { xmlFreeDoc(doc); });
+    if (doc == nullptr)
+        return nullptr;
+
+    xmlNodePtr root = xmlDocCopyNode(node, doc.get(), 1);
+    if (root == nullptr)
+        return nullptr;
+    xmlAddChild((xmlNodePtr) doc.get(), root);
+
+    // prefixes in scope are still available, even when not used in the result
+    if (root->type == XML_ELEMENT_NODE) {
+        xmlNsPtr* scope = xmlGetNsList(node->doc, node);
+        for (int i = 0; scope && scope[i]; ++i) {
+            if (scope[i]->prefix)
+                xmlNewNs(root, scope[i]->href, scope[i]->prefix);
+        }
+        xmlFree(scope);
+    }
+
+    return doc;
+}
+
+/**
+ * Append the XML of the node
+ */
+static void appendXML(std::string& srcml, xmlNodePtr node) {
+
+    // dump the result tree to the string using an output buffer that writes to a std::string
+    xmlOutputBufferPtr output = xmlOutputBufferCreateIO([](void* context, const char* buffer, int len) {
+
+        ((std::string*) context)->append(buffer, len);
+
+        return len;
+
+    }, 0, &srcml, 0);
+    xmlNodeDumpOutput(output, node->doc, node, 0, 0, 0);
+
+    // very important to flush to make sure the unit contents are all present
+    // also performs a free of resources
+    xmlOutputBufferClose(output);
+}
+
+/**
+ * Append the XML of the text in the form name="value"
+ */
+static void appendAttributeXML(std::string& srcml, const std::string& name, const xmlChar* value) {
+
+    std::unique_ptr<xmlBuffer> buffer(xmlBufferCreate());
+    xmlAttrSerializeTxtContent(buffer.get(), nullptr, nullptr, value ? value : BAD_CAST "");
+
+    srcml += name;
+    srcml += "=\"";
+    srcml += (const char*) xmlBufferContent(buffer.get());
+    srcml += "\"";
+}
+
+/**
+ * Replace the contents and attributes of the unit with those of the result of a transformation
+ */
+static void replaceUnit(srcml_unit* unit, srcml_unit* nunit) {
+
+    unit->encoding = nunit->encoding;
+    unit->revision = nunit->revision;
+    unit->language = nunit->language;
+    unit->filename = nunit->filename;
+    unit->url = nunit->url;
+    unit->version = nunit->version;
+    unit->timestamp = nunit->timestamp;
+    unit->hash = nunit->hash;
+    unit->attributes.swap(nunit->attributes);
+    unit->namespaces = nunit->namespaces;
+    unit->read_header = unit->read_body = true;
+    unit->srcml.swap(nunit->srcml);
+    unit->content_begin = nunit->content_begin;
+    unit->content_end = nunit->content_end;
+    unit->insert_begin = nunit->insert_begin;
+    unit->insert_end = nunit->insert_end;
+    unit->loc = -1;
+
+    // views of the previous contents
+    unit->currevision = -1;
+    unit->srcml_revision = boost::none;
+    unit->srcml_fragment = boost::none;
+    unit->srcml_fragment_revision = boost::none;
+    unit->srcml_raw = boost::none;
+    unit->srcml_raw_revision = boost::none;
+    unit->src = boost::none;
 }
 
 /**
  * srcml_unit_apply_transforms
- * @param iarchive an input srcml archive
- * @param oarchive and output srcml archive
+ * @param archive Archive with the transformations
+ * @param unit Unit to perform the transformations on
+ * @param presult Optional result. If null, then the single unit of the result replaces the unit
  *
- * Apply appended transformations inorder added and consecutively.
- * Intermediate results are stored in a temporary file.
- * Transformations are cleared.
+ * Apply appended transformations in the order added and consecutively.
  *
  * @returns Returns SRCML_STATUS_OK on success and a status error codes on failure.
  */
 int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit* unit, struct srcml_transform_result** presult) {
 
+    if (presult)
+        *presult = nullptr;
+
     if (archive == nullptr || unit == nullptr)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
@@ -524,114 +636,106 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
     if (archive->transformations.empty())
         return SRCML_STATUS_OK;
 
-    srcml_transform_result* result = nullptr;
-    if (presult) {
-        *presult = new srcml_transform_result;
-        result = *presult;
-        result->type = SRCML_RESULT_NONE;
-        result->boolValue = false;
-    }
+    // when the caller does not want the result, then it replaces the unit
+    std::unique_ptr<srcml_transform_result, decltype(&srcml_transform_free)> ownresult(nullptr, srcml_transform_free);
+    srcml_transform_result* result = new srcml_transform_result;
+    result->type = SRCML_RESULT_NONE;
+    result->boolValue = false;
+    if (presult)
+        *presult = result;
+    else
+        ownresult.reset(result);
 
     // create a DOM of the unit
-    std::shared_ptr<xmlDoc> doc(xmlReadMemory(unit->srcml.c_str(), (int) unit->srcml.size(), 0, 0, 0), [](xmlDoc* doc) { xmlFreeDoc(doc); });
+    std::shared_ptr<xmlDoc> doc(xmlReadMemory(unit->srcml.c_str(), (int) unit->srcml.size(), 0, 0, XML_PARSE_HUGE), [](xmlDoc* doc) { xmlFreeDoc(doc); });
     if (doc == nullptr)
         return SRCML_STATUS_ERROR;
 
-    // apply transformations sequentially on the results from the previous transformation
-    std::unique_ptr<xmlNodeSet> fullresults(xmlXPathNodeSetCreate(xmlDocGetRootElement(doc.get())));
-    if (fullresults == nullptr)
-        return SRCML_STATUS_ERROR;
+    // all the documents and nodesets have to live as long as the nodes of the final result
+    std::vector<std::shared_ptr<xmlDoc>> docs;
+    std::vector<std::unique_ptr<xmlNodeSet>> nodesets;
 
-    // final result of all applied transformations
-    TransformationResult lastresult;
-    std::shared_ptr<xmlDoc> curdoc(doc);
+    // apply transformations sequentially on the results from the previous transformation
+    std::vector<std::shared_ptr<xmlDoc>> inputs(1, doc);
+    std::vector<xmlNodePtr> fullresults;
     for (const auto& trans : archive->transformations) {
 
-        // preserve the fullresults to iterate through
+        // the results of the previous transformation are the input to this one
+        if (trans != archive->transformations.front()) {
+            inputs.clear();
+            for (const auto node : fullresults) {
+                auto input = resultDocument(node);
+                if (input)
+                    inputs.push_back(input);
+            }
+        }
+
         // collect results from this transformation applied to the potentially multiple
         // results of the previous transformation step
-        std::unique_ptr<xmlNodeSet> pr(xmlXPathNodeSetCreate(0));
-        if (pr == nullptr)
-            return SRCML_STATUS_ERROR;
-        fullresults.swap(pr);
-
-        for (int i = 0; i < pr->nodeNr; ++i) {
+        fullresults.clear();
+        result->type = SRCML_RESULT_NONE;
+        for (const auto& input : inputs) {
 
-            xmlDocSetRootElement(curdoc.get(), pr->nodeTab[i]);
+            docs.push_back(input);
 
-            lastresult = trans->apply(curdoc.get(), 0);
-            std::unique_ptr<xmlNodeSet> results(std::move(lastresult.nodeset));
-            if (results == nullptr)
+            TransformationResult curresult = trans->apply(input.get(), 0);
+            if (curresult.failed) {
+                result->type = SRCML_RESULT_NONE;
+                return SRCML_STATUS_ERROR;
+            }
+            if (curresult.nodeType == SRCML_RESULT_NONE)
+                continue;
+
+            result->type = curresult.nodeType;
+
+            // scalar values are final results
+            if (curresult.nodeType == SRCML_RESULT_STRING)
+                result->stringValue = curresult.stringValue;
+            else if (curresult.nodeType == SRCML_RESULT_BOOLEAN)
+                result->boolValue = curresult.boolValue;
+            else if (curresult.nodeType == SRCML_RESULT_NUMBER)
+                result->numberValue = curresult.numberValue;
+            if (curresult.nodeType != SRCML_RESULT_UNITS) {
+                fullresults.clear();
                 break;
+            }
 
-            xmlXPathNodeSetMerge(fullresults.get(), results.get());
-        }
+            if (curresult.nodeset == nullptr)
+                continue;
 
-        // necessary to avoid access to free'd memory later on
-        // does NOT cause a memory leak
-        pr->nodeNr = 0;
+            for (int i = 0; i < curresult.nodeset->nodeNr; ++i) {
 
-        // result of the transformation may be a new doc
-        if (lastresult.doc && lastresult.doc.get() != doc.get()) {
-            curdoc = lastresult.doc;
+                auto node = curresult.nodeset->nodeTab[i];
+                if (node->type == XML_DOCUMENT_NODE)
+                    node = xmlDocGetRootElement((xmlDocPtr) node);
+                if (node)
+                    fullresults.push_back(node);
+            }
+            docs.push_back(curresult.doc);
+            nodesets.push_back(std::move(curresult.nodeset));
         }
 
         // if there are no results, then we can't apply further transformations
         // but there still might be results in the scalar values
-        if (fullresults->nodeNr == 0) {
-            result->units.clear();
+        if (fullresults.empty())
             break;
-        }
-    }
-
-    if (result) {
-        result->type = lastresult.nodeType;
-    }
-
-    if (lastresult.nodeType != SRCML_RESULT_UNITS) {
-        // remove all nodes in the fullresults nodeset
-        // valgrind shows free accessing these nodes after they have been freed
-        // by the xmlDoc
-        fullresults->nodeNr = 0;
     }
 
-    // handle non-nodeset results
-    switch (lastresult.nodeType) {
-    case SRCML_RESULT_STRING:
-        if (result != nullptr) {
-            result->stringValue = lastresult.stringValue;
-            return SRCML_STATUS_OK;
-        }
-        return SRCML_STATUS_ERROR;
-
-    case SRCML_RESULT_BOOLEAN:
-        if (result != nullptr) {
-            result->boolValue = lastresult.boolValue;
-            return SRCML_STATUS_OK;
-        }
-        return SRCML_STATUS_ERROR;
-
-    case SRCML_RESULT_NUMBER:
-        if (result != nullptr) {
-            result->numberValue = lastresult.numberValue;
-            return SRCML_STATUS_OK;
-        }
-        return SRCML_STATUS_ERROR;
-    };
-
-    if (result == nullptr) {
-        return SRCML_STATUS_OK;
-    }
+    if (result->type != SRCML_RESULT_UNITS)
+        return presult ? SRCML_STATUS_OK : SRCML_STATUS_ERROR;
 
     // create units out of the transformation results
-    result->type = lastresult.nodeType;
+    for (size_t i = 0; i < fullresults.size(); ++i) {
+
+        auto node = fullresults[i];
 
-    for (int i = 0; i < fullresults->nodeNr; ++i) {
+        // a unit result is already wrapped in a unit
+        const bool unitWrapped = node->type == XML_ELEMENT_NODE && strcmp((const char*) node->name, "unit") == 0;
 
         // create a new unit to store the results in
         auto nunit = srcml_unit_clone(unit);
         nunit->read_body = nunit->read_header = true;
-        if (!lastresult.unitWrapped) {
+        if (!unitWrapped) {
             nunit->attributes.push_back("item");
             nunit->attributes.push_back(std::to_string(i + 1));
             nunit->hash = boost::none;
@@ -653,45 +757,55 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
         }
 
         // special cases where the nodes are not written to the tree
-        switch (fullresults->nodeTab[i]->type) {
-        case XML_COMMENT_NODE:
+        switch (node->type) {
+        case XML_ATTRIBUTE_NODE: {
 
-            nunit->srcml.assign("<!--");
-            nunit->srcml.append((const char*) fullresults->nodeTab[i]->content);
-            nunit->srcml.append("-->");
+            std::unique_ptr<xmlChar, void(*)(void*)> value(xmlNodeGetContent(node), [](void* p) { xmlFree(p); });
+            appendAttributeXML(nunit->srcml, (const char*) node->name, value.get());
             break;
+        }
+        case XML_NAMESPACE_DECL: {
 
-        case XML_TEXT_NODE:
-
-            nunit->srcml.append((const char*) fullresults->nodeTab[i]->content);
+            auto ns = (xmlNsPtr) node;
+            appendAttributeXML(nunit->srcml, ns->prefix ? std::string("xmlns:") + (const char*) ns->prefix : "xmlns", ns->href);
             break;
+        }
+        case XML_ELEMENT_NODE:
 
-        case XML_ATTRIBUTE_NODE:
-
-            nunit->srcml.append((const char*) fullresults->nodeTab[i]->name);
-            nunit->srcml.append("=\"");
-            nunit->srcml.append((const char*) fullresults->nodeTab[i]->children->content);
-            nunit->srcml.append("\"");
-            break;
+            if (unitWrapped) {
 
-        default:
+                appendXML(nunit->srcml, node);
 
-            // dump the result tree to the string using an output buffer that writes to a std::string
-            xmlOutputBufferPtr output = xmlOutputBufferCreateIO([](void* context, const char* buffer, int len) {
+            } else {
 
-                ((std::string*) context)->append(buffer, len);
+                // copy is complete, i.e., declares all namespaces that are declared outside of the node
+                xmlNodePtr copy = xmlDocCopyNode(node, node->doc, 1);
+                if (copy == nullptr) {
+                    srcml_unit_free(nunit);
+                    return SRCML_STATUS_ERROR;
+                }
 
-                return len;
+                // except for those already declared for the unit
+                xmlNsPtr declared = nullptr;
+                for (auto p = &copy->nsDef; *p; ) {
+                    if (declaresNamespace(xmlDocGetRootElement(doc.get()), *p)) {
+                        auto ns = *p;
+                        *p = ns->next;
+                        ns->next = declared;
+                        declared = ns;
+                    } else {
+                        p = &(*p)->next;
+                    }
+                }
 
-            }, 0, &(nunit->srcml), 0);
-            xmlNodeDumpOutput(output, curdoc.get(), fullresults->nodeTab[i], 0, 0, 0);
+                appendXML(nunit->srcml, copy);
 
-            // very important to flush to make sure the unit contents are all present
-            // also performs a free of resources
-            xmlOutputBufferClose(output);
+                xmlFreeNode(copy);
+                xmlFreeNsList(declared);
+            }
 
             // update the cpp namespace if actually used
-            if (usesURI(fullresults->nodeTab[i], SRCML_CPP_NS_URI)) {
+            if (usesURI(node, SRCML_CPP_NS_URI)) {
 
                 if (itcpp != view.end()) {
                     view.modify(itcpp, [](Namespace& thisns){ thisns.flags |= NS_USED; });
@@ -701,7 +815,7 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
             }
 
             // update the openmp namespace if actually used
-            if (usesURI(fullresults->nodeTab[i], SRCML_OPENMP_NS_URI)) {
+            if (usesURI(node, SRCML_OPENMP_NS_URI)) {
 
                 if (itomp != view.end()) {
                     view.modify(itomp, [](Namespace& thisns){ thisns.flags |= NS_USED; });
@@ -711,16 +825,25 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
             }
 
             break;
+
+        default:
+
+            appendXML(nunit->srcml, node);
+            break;
         }
 
         // mark inside the units
-        nunit->content_begin = lastresult.unitWrapped ? (int) nunit->srcml.find_first_of('>') + 1 : 0;
-        nunit->content_end =   lastresult.unitWrapped ? (int) nunit->srcml.find_last_of('<') + 1  : (int) nunit->srcml.size() + 1;
+        nunit->content_begin = unitWrapped ? (int) nunit->srcml.find_first_of('>') + 1 : 0;
+        nunit->content_end =   unitWrapped ? (int) nunit->srcml.find_last_of('<') + 1  : (int) nunit->srcml.size() + 1;
         nunit->insert_begin = 0;
         nunit->insert_end = 0;
 
+        // empty unit without an end tag
+        if (nunit->content_end <= nunit->content_begin)
+            nunit->content_end = nunit->content_begin + 1;
+
         // update the unit attributes with the transformed result based on the root tag
-        if (lastresult.unitWrapped) {
+        if (unitWrapped) {
             xmlSAXHandler roottagsax;
             memset(&roottagsax, 0, sizeof(roottagsax));
             roottagsax.initialized    = XML_SAX2_MAGIC;
@@ -736,6 +859,15 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
                     return;
 
                 unit_update_attributes(unit, nb_attributes, attributes);
+
+                // namespaces the transformation added are needed for the contents of the unit
+                for (int i = 0; i < nb_namespaces; ++i) {
+
+                    const std::string uri = (const char*) namespaces[i * 2 + 1];
+                    const auto& view = unit->namespaces->get<nstags::uri>();
+                    if (view.find(uri) == view.end())
+                        unit->namespaces->push_back({ namespaces[i * 2] ? (const char*) namespaces[i * 2] : "", uri, NS_USED });
+                }
             };
 
             // extract the start tag, turning it into an empty tag
@@ -765,10 +897,14 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
         result->units.push_back(nunit);
     }
 
-    // remove all nodes in the fullresults nodeset
-    // valgrind shows free accessing these nodes after they have been freed
-    // by the xmlDoc
-    fullresults->nodeNr = 0;
+    // a single unit replaces the original unit
+    if (presult == nullptr) {
+
+        if (result->units.size() != 1)
+            return SRCML_STATUS_ERROR;
+
+        replaceUnit(unit, result->units.front());
+    }
 
     return SRCML_STATUS_OK;
 }
diff --git a/src/libsrcml/xpathTransformation.cpp b/src/libsrcml/xpathTransformation.cpp
index cbaf66b..3cb839a 100644
--- a/src/libsrcml/xpathTransformation.cpp
+++ b/src/libsrcml/xpathTransformation.cpp
@@ -259,7 +259,7 @@ TransformationResult xpathTransformation::apply(xmlDocPtr doc, int position) con
     std::unique_ptr<xmlXPathContext> context(createContext(doc));
     if (!context) {
         fprintf(stderr, "%s: Error in executing xpath\n", "libsrcml");
-        return TransformationResult();
+        return TransformationResult::failure();
     }
 
     // register standard prefixes for standard namespaces
@@ -276,7 +276,8 @@ TransformationResult xpathTransformation::apply(xmlDocPtr doc, int position) con
     }
 
     // register prefixes from the doc
-    for (auto p = doc->children->nsDef; p; p = p->next) {
+    auto root = xmlDocGetRootElement(doc);
+    for (auto p = root ? root->nsDef : nullptr; p; p = p->next) {
 
         xmlXPathRegisterNs(context.get(), p->prefix, p->href);
     }
@@ -285,11 +286,10 @@ TransformationResult xpathTransformation::apply(xmlDocPtr doc, int position) con
     std::unique_ptr<xmlXPathObject> result_nodes(xmlXPathCompiledEval(compiled_xpath, context.get()));
     if (!result_nodes) {
         fprintf(stderr, "%s: Error in executing xpath\n", "libsrcml");
-        return TransformationResult();
+        return TransformationResult::failure();
     }
 
     TransformationResult tresult;
-    tresult.unitWrapped = false;
 
     // xpath evaluation produces a nodeset result, even if there are no results
     tresult.nodeType = result_nodes->type == XPATH_NODESET && (result_nodes->nodesetval == nullptr || result_nodes->nodesetval->nodeNr == 0)? 0 : result_nodes->type;
@@ -313,7 +313,6 @@ TransformationResult xpathTransformation::apply(xmlDocPtr doc, int position) con
 
         addElementXPathResults(doc, result_nodes.get());
 
-        tresult.unitWrapped = true;
         tresult.nodeType = SRCML_RESULT_UNITS;
         tresult.nodeset.reset(xmlXPathNodeSetCreate(xmlDocGetRootElement(doc)));
 
@@ -330,7 +329,6 @@ TransformationResult xpathTransformation::apply(xmlDocPtr doc, int position) con
                 append_attribute_to_node(onode, attr_prefix.c_str(), attr_value.c_str());
             }
         }
-        tresult.unitWrapped = true;
         tresult.nodeType = SRCML_RESULT_UNITS;
         tresult.nodeset.reset(xmlXPathNodeSetCreate(xmlDocGetRootElement(doc)));
 
@@ -343,9 +341,6 @@ TransformationResult xpathTransformation::apply(xmlDocPtr doc, int position) con
     if (!result_nodes->nodesetval->nodeNr)
         return tresult;
 
-    if (result_nodes->nodesetval->nodeTab[0] && result_nodes->nodesetval->nodeTab[0]->name &&
-        strcmp((const char*) result_nodes->nodesetval->nodeTab[0]->name, "unit") == 0)
-        tresult.unitWrapped = true;
 
     tresult.nodeset.reset(result_nodes->nodesetval);
     result_nodes->nodesetval = nullptr;
diff --git a/src/libsrcml/xsltTransformation.cpp b/src/libsrcml/xsltTransformation.cpp
index 885e67a..3c72989 100644
--- a/src/libsrcml/xsltTransformation.cpp
+++ b/src/libsrcml/xsltTransformation.cpp
@@ -156,40 +156,29 @@ TransformationResult xsltTransformation::apply(xmlDocPtr doc, int /* position */
     if (!res) {
         fprintf(stderr, "libsrcml:  Error in applying stylesheet\n");
 
-        return TransformationResult();
-    }
-    // empty (but valid) result
-    if (!res->children) {
-        return TransformationResult();
+        return TransformationResult::failure();
     }
 
-    // transformation result is nodeset with single unit, and the unit is wrapped
-    TransformationResult result(xmlXPathNodeSetCreate(res->children), true);
+    TransformationResult result;
     result.doc = res;
-    result.nodeType = res->children->type == 1 ? SRCML_RESULT_UNITS : SRCML_RESULT_STRING;
-
-    // transformation may produce more than one unit, but not be well-formed due to lack of root element
-    // so create a nodeset of those parts, and change the type since libxml2 has this as text
-    if (res->children->next && res->children->next->type == 1) {
 
-        // libxml2 types this as text since there is no root element
+    // elements of the result, typically a single unit. May produce more than one unit, and then is
+    // not well-formed due to lack of root element
+    result.nodeset.reset(xmlXPathNodeSetCreate(nullptr));
+    for (auto p = res->children; p; p = p->next) {
+        if (p->type == XML_ELEMENT_NODE)
+            xmlXPathNodeSetAddUnique(result.nodeset.get(), p);
+    }
+    if (result.nodeset->nodeNr > 0) {
         result.nodeType = SRCML_RESULT_UNITS;
-
-        // remove the res->children since it may not be a unit
-        xmlXPathNodeSetRemove(result.nodeset.get(), 0);
-
-        // add each unit to the nodeset
-        for (auto p = res->children; p; p = p->next) {
-            if (p->type != 1)
-                continue;
-            xmlXPathNodeSetMerge(result.nodeset.get(), xmlXPathNodeSetCreate(p));
-        }
+        return result;
     }
 
-    // text result
-    if (result.nodeType == SRCML_RESULT_STRING) {
-        auto str = (char*) xmlNodeListGetRawString(res.get(), res->children, 0);
-        result.stringValue = str;
+    // text result, unless an empty (but valid) result
+    result.nodeset.reset();
+    if (auto str = xmlNodeListGetRawString(res.get(), res->children, 1)) {
+        result.nodeType = SRCML_RESULT_STRING;
+        result.stringValue = (const char*) str;
         xmlFree(str);
     }
     return result;
-- 
2.43.0


From 88f62c6b025193e33a043868545fa707421215ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:56 +0000
Subject: [PATCH 044/115] fix: XPath element and attribute insertion declares
 the namespace and keeps the tree well-formed

---
 src/libsrcml/xpathTransformation.cpp | 105 +++++++++++++++------------
 src/libsrcml/xpathTransformation.hpp |  14 +---
 2 files changed, 63 insertions(+), 56 deletions(-)

diff --git a/src/libsrcml/xpathTransformation.cpp b/src/libsrcml/xpathTransformation.cpp
index 3cb839a..b9c40e4 100644
--- a/src/libsrcml/xpathTransformation.cpp
+++ b/src/libsrcml/xpathTransformation.cpp
@@ -69,16 +69,6 @@ xpathTransformation::xpathTransformation(srcml_archive* oarchive, const char* xp
     // errors will show up when it is first used
     compiled_xpath = xmlXPathCompile(BAD_CAST xpath);
 
-    // create a namespace for the new attribute (if needed)
-    if (attr_uri) {
-        attr_ns = xmlNewNs(NULL, (const xmlChar *) attr_uri, (const xmlChar *) attr_prefix);
-    }
-
-    // create a namespace for the new element (if needed)
-    if (element_uri) {
-        element_ns = xmlNewNs(NULL, (const xmlChar*) uri.c_str(), (const xmlChar*) prefix.c_str());
-    }
-
     // load DLL exslt functions
 #if LIBEXSLT_VERSION > 813
 #ifdef DLLOAD
@@ -93,14 +83,6 @@ xpathTransformation::~xpathTransformation() {
     // free the compiled xpath
     xmlXPathFreeCompExpr(compiled_xpath);
 
-    // free the namespace for any added attributes
-    if (attr_ns)
-        xmlFreeNs(attr_ns);
-
-    // free the namespace for any added elements
-    if (element_ns)
-        xmlFreeNs(element_ns);
-
 #ifdef DLLOAD
     dlclose(handle);
 #endif
@@ -157,32 +139,57 @@ int xpathTransformation::child_offset(xmlNodePtr root_result_node) {
     return child_count;
 }
 
+/**
+ * namespace_for_node
+ * @param node an element
+ * @param prefix the namespace prefix
+ * @param uri the namespace uri
+ *
+ * Namespace with the prefix and uri at this node. If not already declared there, then it is
+ * declared on the root, unless the prefix is used there for another namespace.
+ */
+static xmlNsPtr namespace_for_node(xmlNodePtr node, const std::string& prefix, const std::string& uri) {
+
+    const xmlChar* nsprefix = prefix.empty() ? nullptr : BAD_CAST prefix.c_str();
+
+    for (auto root : { xmlDocGetRootElement(node->doc), node }) {
+
+        auto ns = xmlSearchNs(node->doc, node, nsprefix);
+        if (ns && xmlStrEqual(ns->href, BAD_CAST uri.c_str()))
+            return ns;
+
+        // declaring a default namespace on the root would change other elements
+        if (root && (nsprefix || root == node))
+            xmlNewNs(root, BAD_CAST uri.c_str(), nsprefix);
+    }
+
+    auto ns = xmlSearchNs(node->doc, node, nsprefix);
+    return ns && xmlStrEqual(ns->href, BAD_CAST uri.c_str()) ? ns : nullptr;
+}
+
 /**
  * append_attribute_to_node
  * @param node an xmlNode to append the attribute
- * @param attr_name the attribute name
- * @param attr_value the attribute value
  *
- * Append an attribute to the given node.  Only the prefix and uri can vary.  The
- * rest are the same throughout all calls and are part of the class.
+ * Append the attribute of the transformation to the given element. If the element already has the attribute,
+ * then the value is added to the current one.
  */
-void xpathTransformation::append_attribute_to_node(xmlNodePtr node, const char* attr_prefix, const char* attr_uri) const {
+void xpathTransformation::append_attribute_to_node(xmlNodePtr node) const {
+
+    // attributes are not in the default namespace
+    xmlNsPtr ns = attr_prefix.empty() ? nullptr : namespace_for_node(node, attr_prefix, attr_uri);
 
     // grab current value
-    const char* value = (char*) xmlGetNsProp(node, BAD_CAST attr_name.c_str(), BAD_CAST attr_uri);
-    const char* newvalue = attr_value.c_str();
+    std::unique_ptr<xmlChar, void(*)(void*)> value(
+        ns ? xmlGetNsProp(node, BAD_CAST attr_name.c_str(), ns->href) : xmlGetNoNsProp(node, BAD_CAST attr_name.c_str()),
+        [](void* p) { xmlFree(p); });
 
     // previous property
-    std::string curvalue;
-    if (value && strcmp(value, newvalue)) {
+    std::string newvalue = attr_value;
+    if (value && attr_value != (const char*) value.get())
+        newvalue = std::string((const char*) value.get()) + ' ' + attr_value;
 
-        curvalue = value;
-        curvalue += ' ';
-        curvalue += attr_value;
-        newvalue = curvalue.c_str();
-    }
-
-    xmlNewNsProp(node, attr_ns, (const xmlChar *) attr_name.c_str(), (const xmlChar *) newvalue);
+    xmlSetNsProp(node, ns, BAD_CAST attr_name.c_str(), BAD_CAST newvalue.c_str());
 }
 
 xmlXPathContextPtr xpathTransformation::createContext(xmlDocPtr doc) const {
@@ -326,7 +333,9 @@ TransformationResult xpathTransformation::apply(xmlDocPtr doc, int position) con
 
                 xmlNodePtr onode = result_nodes->nodesetval->nodeTab[i];
 
-                append_attribute_to_node(onode, attr_prefix.c_str(), attr_value.c_str());
+                // only elements have attributes
+                if (onode->type == XML_ELEMENT_NODE)
+                    append_attribute_to_node(onode);
             }
         }
         tresult.nodeType = SRCML_RESULT_UNITS;
@@ -361,12 +370,12 @@ void xpathTransformation::addElementXPathResults(xmlDocPtr doc, xmlXPathObjectPt
 
         xmlNodePtr onode = result_nodes->nodesetval->nodeTab[i];
 
-        // set up node to insert
-        xmlNodePtr element_node = xmlNewNode(element_ns, (const xmlChar*) element.c_str());
+        // only wrap what can be in the content of an element
+        if (onode->type == XML_ATTRIBUTE_NODE || onode->type == XML_NAMESPACE_DECL || onode->type == XML_DOCUMENT_NODE)
+            continue;
 
-        if (!attr_name.empty())
-            append_attribute_to_node(element_node, !attr_uri.empty() ? attr_prefix.c_str() : prefix.c_str(),
-                !attr_uri.empty() ? attr_uri.c_str() : uri.c_str());
+        // insert the element
+        xmlNodePtr element_node = xmlNewDocNode(doc, nullptr, BAD_CAST element.c_str(), nullptr);
 
         // result node is not a unit
         if (a_node != onode) {
@@ -377,13 +386,19 @@ void xpathTransformation::addElementXPathResults(xmlDocPtr doc, xmlXPathObjectPt
         // result node is a unit
         } else {
 
+            // move the children without merging of text nodes, as they may also be results
             element_node->children = onode->children;
             element_node->last = onode->last;
-            element_node->parent = onode;
-            element_node->next = 0;
-            element_node->prev = 0;
-            onode->children = element_node;
-            onode->last = element_node;
+            for (auto child = element_node->children; child; child = child->next)
+                child->parent = element_node;
+            onode->children = nullptr;
+            onode->last = nullptr;
+            xmlAddChild(onode, element_node);
         }
+
+        xmlSetNs(element_node, namespace_for_node(element_node, prefix, uri));
+
+        if (!attr_name.empty())
+            append_attribute_to_node(element_node);
     }
 }
diff --git a/src/libsrcml/xpathTransformation.hpp b/src/libsrcml/xpathTransformation.hpp
index b9fa954..231fda6 100644
--- a/src/libsrcml/xpathTransformation.hpp
+++ b/src/libsrcml/xpathTransformation.hpp
@@ -118,13 +118,11 @@ public :
     /**
      * append_attribute_to_node
      * @param node an xmlNode to append the attribute
-     * @param attr_name the attribute name
-     * @param attr_value the attribute value
      *
-     * Append an attribute to the given node.  Only the prefix and uri can vary.  The
-     * rest are the same throughout all calls and are part of the class.
+     * Append the attribute of the transformation to the given element. If the element already has the attribute,
+     * then the value is added to the current one.
      */
-    void append_attribute_to_node(xmlNodePtr node, const char* attr_prefix, const char* attr_uri) const;
+    void append_attribute_to_node(xmlNodePtr node) const;
 
 #pragma GCC diagnostic push
 
@@ -139,12 +137,6 @@ public :
 
     void addElementXPathResults(xmlDocPtr doc, xmlXPathObjectPtr result_nodes) const;
 
-    // element namespace
-    xmlNsPtr element_ns = nullptr;
-
-    // attribute namespace
-    xmlNsPtr attr_ns = nullptr;
-
 public:
     std::string xpath;
     std::string prefix;
-- 
2.43.0


From b722f85935f7d1dfac864ddb87902f6e506a83a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:56 +0000
Subject: [PATCH 045/115] fix: String parameter of a transformation may contain
 quotes

---
 src/libsrcml/srcml_transform.cpp | 35 +++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index 239c820..13f0d78 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -431,13 +431,38 @@ int srcml_append_transform_param(srcml_archive* archive, const char* xpath_param
     return SRCML_STATUS_OK;
 }
 
+/**
+ * XPath expression of a string
+ *
+ * A literal has no escapes, so a string with both kinds of quotes is a concatenation of literals
+ */
+static std::string xpath_string_literal(const std::string& value) {
+
+    if (value.find('"') == std::string::npos)
+        return '"' + value + '"';
+
+    if (value.find('\'') == std::string::npos)
+        return '\'' + value + '\'';
+
+    std::string expr = "concat(";
+    std::string::size_type start = 0;
+    std::string::size_type end;
+    while ((end = value.find('"', start)) != std::string::npos) {
+        expr += '"' + value.substr(start, end - start) + "\", '\"', ";
+        start = end + 1;
+    }
+    expr += '"' + value.substr(start) + "\")";
+
+    return expr;
+}
+
 /**
  * srcml_append_transform_stringparam
  * @param archive a srcml archive
  * @param xpath_param_name name of a parameter
- * @param xpath_param_value value of the named parameter will be wrapped in "
+ * @param xpath_param_value value of the named parameter as a string, not as an XPath expression
  *
- * Append the parameter to the last transformation with the value wrapped in ".
+ * Append the parameter to the last transformation with the value as an XPath string literal.
  *
  * @returns Returns SRCML_STATUS_OK on success and a status errors code on failure.
  */
@@ -450,11 +475,7 @@ int srcml_append_transform_stringparam(srcml_archive* archive, const char* xpath
 
     archive->transformations.back()->xsl_parameters.push_back(xpath_param_name);
 
-    std::string parenvalue = "\"";
-    parenvalue += xpath_param_value;
-    parenvalue += "\"";
-
-    archive->transformations.back()->xsl_parameters.push_back(parenvalue);
+    archive->transformations.back()->xsl_parameters.push_back(xpath_string_literal(xpath_param_value));
 
     return SRCML_STATUS_OK;
 }
-- 
2.43.0


From b06b701a3a3237ac537764e0c9c8b30db15eb972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:06 +0000
Subject: [PATCH 046/115] fix: Freeing a stylesheet does not remove extension
 functions in use by others

---
 src/libsrcml/xsltTransformation.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/libsrcml/xsltTransformation.cpp b/src/libsrcml/xsltTransformation.cpp
index 3c72989..9679fec 100644
--- a/src/libsrcml/xsltTransformation.cpp
+++ b/src/libsrcml/xsltTransformation.cpp
@@ -27,6 +27,7 @@
 
 #include <srcml_sax2_utilities.hpp>
 
+#include <mutex>
 #include <stdexcept>
 
 #ifdef DLLOAD
@@ -110,7 +111,11 @@ xsltTransformation::xsltTransformation(/* OPTION_TYPE& options, */ xmlDocPtr xsl
 #endif
 
     // allow for all exslt functions
-    exsltRegisterAll();
+    {
+        static std::mutex registration;
+        std::lock_guard<std::mutex> lock(registration);
+        exsltRegisterAll();
+    }
 
     // parse the stylesheet
     stylesheet = xsltParseStylesheetDoc(xslt);
@@ -127,9 +132,10 @@ xsltTransformation::~xsltTransformation() {
 
     xsltFreeStylesheet(stylesheet);
 
+#ifdef DLLOAD
+    // without dynamic loading the extension registrations are shared with all other stylesheets
     xsltCleanupGlobals();
 
-#ifdef DLLOAD
     dlclose(libxslt_handle);
     dlclose(libexslt_handle);
 #endif
-- 
2.43.0


From c172ca8bfbe28e8e806d8e2e045afa6473cd7ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:35 +0000
Subject: [PATCH 047/115] fix: Text after a malformed XML declaration is not
 added to a null position

---
 src/libsrcml/sax2_srcsax_handler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index b3fa89a..30bb1c0 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -779,7 +779,8 @@ void characters_unit(void* ctx, const xmlChar* ch, int len) {
 
     BASE_DEBUG;
 
-    if (!state->collect_unit_body)
+    // no document when the XML declaration is malformed
+    if (!state->collect_unit_body || state->base == nullptr)
         return;
 
     state->unitsrc.append((const char*) ch, len);
-- 
2.43.0


From eb44175778634a526abf9a30e688785b7686bf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:48 +0000
Subject: [PATCH 048/115] fix: Namespaces added by a transformation are
 declared on the unit

---
 src/libsrcml/srcml_transform.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index 13f0d78..d751d18 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -887,7 +887,7 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
                     const std::string uri = (const char*) namespaces[i * 2 + 1];
                     const auto& view = unit->namespaces->get<nstags::uri>();
                     if (view.find(uri) == view.end())
-                        unit->namespaces->push_back({ namespaces[i * 2] ? (const char*) namespaces[i * 2] : "", uri, NS_USED });
+                        unit->namespaces->push_back({ namespaces[i * 2] ? (const char*) namespaces[i * 2] : "", uri, NS_USED | NS_STANDARD });
                 }
             };
 
-- 
2.43.0


From e4875c909b8d11455267606a2ecbc35eeaf2177e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:47 +0000
Subject: [PATCH 049/115] fix: Attributes of other namespaces on a unit keep
 their prefix

---
 src/libsrcml/srcml_reader_handler.hpp |  2 +-
 src/libsrcml/unit_utilities.cpp       | 16 +++++++++++++++-
 src/libsrcml/unit_utilities.hpp       |  3 +++
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/libsrcml/srcml_reader_handler.hpp b/src/libsrcml/srcml_reader_handler.hpp
index c4bcead..4aa80a0 100644
--- a/src/libsrcml/srcml_reader_handler.hpp
+++ b/src/libsrcml/srcml_reader_handler.hpp
@@ -271,7 +271,7 @@ public :
 
         // collect attributes
         for (int pos = 0; pos < num_attributes; ++pos) {
-            std::string attribute = (const char*) attributes[pos * 5];
+            std::string attribute = attribute_name(attributes, pos);
             std::string value = attribute_value(attributes, pos);
 
             // Note: these are ignore instead of placing in attributes.
diff --git a/src/libsrcml/unit_utilities.cpp b/src/libsrcml/unit_utilities.cpp
index fba763a..e1005ad 100644
--- a/src/libsrcml/unit_utilities.cpp
+++ b/src/libsrcml/unit_utilities.cpp
@@ -41,13 +41,27 @@ std::string attribute_value(const xmlChar** attributes, int pos) {
     return unescape_value(std::string((const char*) attributes[pos * 5 + 3], attributes[pos * 5 + 4] - attributes[pos * 5 + 3]));
 }
 
+// Name of the attribute at a position in attributes of libxml2 SAX2 handlers
+// Attributes of other namespaces, i.e., not srcML, keep their prefix
+std::string attribute_name(const xmlChar** attributes, int pos) {
+
+    std::string name = (const char*) attributes[pos * 5];
+
+    const char* prefix = (const char*) attributes[pos * 5 + 1];
+    const char* uri = (const char*) attributes[pos * 5 + 2];
+    if (prefix && uri && !is_srcml_namespace(uri, SRCML_SRC_NS_URI) && !is_srcml_namespace(uri, SRCML_POSITION_NS_URI))
+        name = std::string(prefix) + ':' + name;
+
+    return name;
+}
+
 // Update unit attributes with xml parsed attributes
 void unit_update_attributes(srcml_unit* unit, int num_attributes, const xmlChar** attributes) {
 
     // collect attributes
     for (int pos = 0; pos < num_attributes; ++pos) {
 
-        std::string attribute = (const char*) attributes[pos * 5];
+        std::string attribute = attribute_name(attributes, pos);
         std::string value = attribute_value(attributes, pos);
 
         if (attribute == "timestamp")
diff --git a/src/libsrcml/unit_utilities.hpp b/src/libsrcml/unit_utilities.hpp
index 802d581..f6ef70b 100644
--- a/src/libsrcml/unit_utilities.hpp
+++ b/src/libsrcml/unit_utilities.hpp
@@ -33,6 +33,9 @@ std::string unescape_value(std::string value);
 // Value of the attribute at a position in attributes of libxml2 SAX2 handlers
 std::string attribute_value(const xmlChar** attributes, int pos);
 
+// Name of the attribute at a position in attributes of libxml2 SAX2 handlers
+std::string attribute_name(const xmlChar** attributes, int pos);
+
 // Update unit attributes with xml parsed attributes
 void unit_update_attributes(srcml_unit* unit, int num_attributes, const xmlChar** attributes);
 
-- 
2.43.0


From 6812be0e2235bd3a5bf5032d620d33883ab56bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:47 +0000
Subject: [PATCH 050/115] fix: An insertion uses a namespace already declared
 instead of another prefix

---
 src/libsrcml/xpathTransformation.cpp | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/libsrcml/xpathTransformation.cpp b/src/libsrcml/xpathTransformation.cpp
index b9c40e4..e73511d 100644
--- a/src/libsrcml/xpathTransformation.cpp
+++ b/src/libsrcml/xpathTransformation.cpp
@@ -145,26 +145,29 @@ int xpathTransformation::child_offset(xmlNodePtr root_result_node) {
  * @param prefix the namespace prefix
  * @param uri the namespace uri
  *
- * Namespace with the prefix and uri at this node. If not already declared there, then it is
+ * Namespace with the uri at this node, with the prefix if possible. If not already declared there, then it is
  * declared on the root, unless the prefix is used there for another namespace.
  */
 static xmlNsPtr namespace_for_node(xmlNodePtr node, const std::string& prefix, const std::string& uri) {
 
     const xmlChar* nsprefix = prefix.empty() ? nullptr : BAD_CAST prefix.c_str();
+    const xmlChar* nsuri = BAD_CAST uri.c_str();
 
-    for (auto root : { xmlDocGetRootElement(node->doc), node }) {
+    auto ns = xmlSearchNs(node->doc, node, nsprefix);
+    if (ns && xmlStrEqual(ns->href, nsuri))
+        return ns;
 
-        auto ns = xmlSearchNs(node->doc, node, nsprefix);
-        if (ns && xmlStrEqual(ns->href, BAD_CAST uri.c_str()))
-            return ns;
+    // same namespace with another prefix
+    ns = xmlSearchNsByHref(node->doc, node, nsuri);
+    if (ns && (ns->prefix || !nsprefix))
+        return ns;
 
-        // declaring a default namespace on the root would change other elements
-        if (root && (nsprefix || root == node))
-            xmlNewNs(root, BAD_CAST uri.c_str(), nsprefix);
-    }
+    // declaring a default namespace on the root would change other elements
+    auto root = xmlDocGetRootElement(node->doc);
+    if (root && nsprefix && (ns = xmlNewNs(root, nsuri, nsprefix)) != nullptr && xmlSearchNs(node->doc, node, nsprefix) == ns)
+        return ns;
 
-    auto ns = xmlSearchNs(node->doc, node, nsprefix);
-    return ns && xmlStrEqual(ns->href, BAD_CAST uri.c_str()) ? ns : nullptr;
+    return xmlNewNs(node, nsuri, nsprefix);
 }
 
 /**
-- 
2.43.0


From 5ed34510159dd77887fdec34326478e1dcd0b3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:33 +0000
Subject: [PATCH 051/115] fix: Prefixes of a transformation result are those of
 the unit

---
 src/libsrcml/srcml_transform.cpp     | 62 ++++++++++++++++++++++++++++
 src/libsrcml/xpathTransformation.cpp | 11 ++---
 2 files changed, 68 insertions(+), 5 deletions(-)

diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index d751d18..40b792f 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -536,6 +536,67 @@ static bool declaresNamespace(const xmlNode* node, const xmlNs* ns) {
     return false;
 }
 
+/**
+ * Does an attribute of the node, or of anything in it, use the namespace declaration
+ */
+static bool attributeUsesNamespace(const xmlNode* node, const xmlNs* ns) {
+
+    if (node->type != XML_ELEMENT_NODE)
+        return false;
+
+    for (auto attr = node->properties; attr; attr = attr->next) {
+        if (attr->ns == ns)
+            return true;
+    }
+
+    for (auto child = node->children; child; child = child->next) {
+        if (attributeUsesNamespace(child, ns))
+            return true;
+    }
+
+    return false;
+}
+
+/**
+ * Namespaces declared on a unit result use the prefixes of the unit
+ */
+static void useUnitPrefixes(xmlNodePtr node, const xmlNode* unit) {
+
+    for (auto p = &node->nsDef; *p; ) {
+
+        auto ns = *p;
+        auto declared = unit->nsDef;
+        while (declared && !xmlStrEqual(declared->href, ns->href))
+            declared = declared->next;
+        const xmlChar* prefix = declared ? declared->prefix : nullptr;
+        if (!declared || xmlStrEqual(ns->prefix, prefix) || (!prefix && attributeUsesNamespace(node, ns))) {
+            p = &ns->next;
+            continue;
+        }
+
+        // prefix may already be declared on the node
+        xmlNsPtr same = node->nsDef;
+        while (same && !xmlStrEqual(same->prefix, prefix))
+            same = same->next;
+        if (same && !xmlStrEqual(same->href, ns->href)) {
+            p = &ns->next;
+            continue;
+        }
+
+        xmlFree((xmlChar*) ns->prefix);
+        ns->prefix = prefix ? xmlStrdup(prefix) : nullptr;
+
+        // second declaration is not needed, but is still in use by the nodes
+        if (same && xmlSearchNs(node->doc, node, BAD_CAST "xml") && node->doc->oldNs) {
+            *p = ns->next;
+            ns->next = node->doc->oldNs->next;
+            node->doc->oldNs->next = ns;
+        } else {
+            p = &ns->next;
+        }
+    }
+}
+
 /**
  * The result of one transformation as the input document of the next
  *
@@ -795,6 +856,7 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
 
             if (unitWrapped) {
 
+                useUnitPrefixes(node, xmlDocGetRootElement(doc.get()));
                 appendXML(nunit->srcml, node);
 
             } else {
diff --git a/src/libsrcml/xpathTransformation.cpp b/src/libsrcml/xpathTransformation.cpp
index e73511d..01fdd37 100644
--- a/src/libsrcml/xpathTransformation.cpp
+++ b/src/libsrcml/xpathTransformation.cpp
@@ -144,11 +144,12 @@ int xpathTransformation::child_offset(xmlNodePtr root_result_node) {
  * @param node an element
  * @param prefix the namespace prefix
  * @param uri the namespace uri
+ * @param attribute the namespace is for an attribute
  *
  * Namespace with the uri at this node, with the prefix if possible. If not already declared there, then it is
  * declared on the root, unless the prefix is used there for another namespace.
  */
-static xmlNsPtr namespace_for_node(xmlNodePtr node, const std::string& prefix, const std::string& uri) {
+static xmlNsPtr namespace_for_node(xmlNodePtr node, const std::string& prefix, const std::string& uri, bool attribute) {
 
     const xmlChar* nsprefix = prefix.empty() ? nullptr : BAD_CAST prefix.c_str();
     const xmlChar* nsuri = BAD_CAST uri.c_str();
@@ -157,9 +158,9 @@ static xmlNsPtr namespace_for_node(xmlNodePtr node, const std::string& prefix, c
     if (ns && xmlStrEqual(ns->href, nsuri))
         return ns;
 
-    // same namespace with another prefix
+    // same namespace with another prefix, which for an attribute cannot be the default
     ns = xmlSearchNsByHref(node->doc, node, nsuri);
-    if (ns && (ns->prefix || !nsprefix))
+    if (ns && (ns->prefix || !attribute))
         return ns;
 
     // declaring a default namespace on the root would change other elements
@@ -180,7 +181,7 @@ static xmlNsPtr namespace_for_node(xmlNodePtr node, const std::string& prefix, c
 void xpathTransformation::append_attribute_to_node(xmlNodePtr node) const {
 
     // attributes are not in the default namespace
-    xmlNsPtr ns = attr_prefix.empty() ? nullptr : namespace_for_node(node, attr_prefix, attr_uri);
+    xmlNsPtr ns = attr_prefix.empty() ? nullptr : namespace_for_node(node, attr_prefix, attr_uri, true);
 
     // grab current value
     std::unique_ptr<xmlChar, void(*)(void*)> value(
@@ -399,7 +400,7 @@ void xpathTransformation::addElementXPathResults(xmlDocPtr doc, xmlXPathObjectPt
             xmlAddChild(onode, element_node);
         }
 
-        xmlSetNs(element_node, namespace_for_node(element_node, prefix, uri));
+        xmlSetNs(element_node, namespace_for_node(element_node, prefix, uri, false));
 
         if (!attr_name.empty())
             append_attribute_to_node(element_node);
-- 
2.43.0


From d20dbd777d1a5b9cbc4b54e02b9e15f0e7c1fbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:48 +0000
Subject: [PATCH 052/115] fix: A transformation without resulting nodes has no
 results

---
 src/libsrcml/srcml_transform.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index 40b792f..b77e806 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -799,8 +799,11 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
 
         // if there are no results, then we can't apply further transformations
         // but there still might be results in the scalar values
-        if (fullresults.empty())
+        if (fullresults.empty()) {
+            if (result->type == SRCML_RESULT_UNITS)
+                result->type = SRCML_RESULT_NONE;
             break;
+        }
     }
 
     if (result->type != SRCML_RESULT_UNITS)
-- 
2.43.0


From c694936b3fce1273c2b014c83e83df94f3ec21d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:26 +0000
Subject: [PATCH 053/115] fix: XSLT libraries stay loaded and registered while
 other stylesheets use them

---
 src/libsrcml/xsltTransformation.cpp | 26 +++++---------------------
 src/libsrcml/xsltTransformation.hpp |  2 --
 2 files changed, 5 insertions(+), 23 deletions(-)

diff --git a/src/libsrcml/xsltTransformation.cpp b/src/libsrcml/xsltTransformation.cpp
index 9679fec..21d2e06 100644
--- a/src/libsrcml/xsltTransformation.cpp
+++ b/src/libsrcml/xsltTransformation.cpp
@@ -81,14 +81,6 @@ xsltTransformation::xsltTransformation(/* OPTION_TYPE& options, */ xmlDocPtr xsl
         throw std::runtime_error("Unable to load libxslt");
     }
 
-    dlerror();
-    *(void**)(&xsltCleanupGlobals) = dlsym(libxslt_handle, "xsltCleanupGlobals");
-    if ((error = dlerror()) != NULL) {
-        dlclose(libxslt_handle);
-        libxslt_handle = 0;
-        throw std::runtime_error("Unable to load libxslt");
-    }
-
     dlerror();
     *(void**)(&xsltFreeStylesheet) = dlsym(libxslt_handle, "xsltFreeStylesheet");
     if ((error = dlerror()) != NULL) {
@@ -111,11 +103,8 @@ xsltTransformation::xsltTransformation(/* OPTION_TYPE& options, */ xmlDocPtr xsl
 #endif
 
     // allow for all exslt functions
-    {
-        static std::mutex registration;
-        std::lock_guard<std::mutex> lock(registration);
-        exsltRegisterAll();
-    }
+    static std::once_flag registration;
+    std::call_once(registration, exsltRegisterAll);
 
     // parse the stylesheet
     stylesheet = xsltParseStylesheetDoc(xslt);
@@ -126,19 +115,14 @@ xsltTransformation::xsltTransformation(/* OPTION_TYPE& options, */ xmlDocPtr xsl
 /**
  * ~xsltTransformation
  *
- * Destructor.  Closes dynamically loaded library.
+ * Destructor.
  */
 xsltTransformation::~xsltTransformation() {
 
     xsltFreeStylesheet(stylesheet);
 
-#ifdef DLLOAD
-    // without dynamic loading the extension registrations are shared with all other stylesheets
-    xsltCleanupGlobals();
-
-    dlclose(libxslt_handle);
-    dlclose(libexslt_handle);
-#endif
+    // note: libraries remain loaded, and extensions registered, as they are
+    // shared with all other stylesheets, including those of other threads
 }
 
 /**
diff --git a/src/libsrcml/xsltTransformation.hpp b/src/libsrcml/xsltTransformation.hpp
index 16e6aba..3f4abee 100644
--- a/src/libsrcml/xsltTransformation.hpp
+++ b/src/libsrcml/xsltTransformation.hpp
@@ -45,7 +45,6 @@
 #ifdef DLLOAD
 typedef xmlDocPtr (*xsltApplyStylesheetUser_t) (xsltStylesheetPtr,xmlDocPtr,const char **,const char *, FILE *, xsltTransformContextPtr);
 typedef xsltStylesheetPtr (*xsltParseStylesheetDoc_t) (xmlDocPtr);
-typedef void (*xsltCleanupGlobals_t)();
 typedef void (*xsltFreeStylesheet_t)(xsltStylesheetPtr);
 
 void dlexsltRegisterAll(void * handle);
@@ -98,7 +97,6 @@ private :
     void* libexslt_handle = nullptr;
     xsltApplyStylesheetUser_t xsltApplyStylesheetUser;
     xsltParseStylesheetDoc_t xsltParseStylesheetDoc;
-    xsltCleanupGlobals_t xsltCleanupGlobals;
     xsltFreeStylesheet_t xsltFreeStylesheet;
 #endif
 };
-- 
2.43.0


From ab0db330eb4b5f4eac146b605c3a58bc3e9cb065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:44 +0000
Subject: [PATCH 054/115] fix: namespaces of the root are inside the tag of a
 unit without attributes

---
 src/libsrcml/sax2_srcsax_handler.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index 30bb1c0..49d94a5 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -467,9 +467,17 @@ void start_unit(void* ctx, const xmlChar* localname, const xmlChar* prefix, cons
         if (pos >= 0) {
             // merge the namespaces from the root into this one
             state->unitsrcml.reserve(ctxt->input->cur - state->base + 1 + (state->context->is_archive ? state->rootnsstr.size() : 0));
+
+            // a unit tag without attributes, e.g., "<unit>", has no space to insert the namespaces after
+            const bool noattributes = state->base[pos - 1] == '>' || state->base[pos - 1] == '/';
+            if (noattributes)
+                --pos;
+
             state->unitsrcml.assign((const char*) state->base, pos);
             state->insert_begin = (int) state->unitsrcml.size();
             if (state->context->is_archive) {
+                if (noattributes)
+                    state->unitsrcml += ' ';
                 state->unitsrcml.append(state->rootnsstr);
                 state->insert_end = (int) state->unitsrcml.size();
             }
-- 
2.43.0


From 7626a15fd71af5173e5bb9fcd4ea51343cb388df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:33 +0000
Subject: [PATCH 055/115] fix: a document that declares entities is refused
 instead of copying from the wrong buffer

---
 src/libsrcml/sax2_srcsax_handler.cpp | 20 ++++++++++++++++++++
 src/libsrcml/sax2_srcsax_handler.hpp | 13 +++++++++++++
 src/libsrcml/srcSAXController.cpp    |  4 +++-
 3 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index 49d94a5..cb1d9ef 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -72,6 +72,8 @@ xmlSAXHandler srcsax_sax2_factory() {
     sax.cdataBlock = &cdata_block;
     sax.processingInstruction = &processing_instruction;
 
+    sax.entityDecl = &entity_declaration;
+
     return sax;
 }
 
@@ -854,6 +856,24 @@ void comment(void* ctx, const xmlChar* value) {
     SRCSAX_DEBUG_END("");
 }
 
+/**
+ * entity_declaration
+ * @param ctx an xmlParserCtxtPtr
+ *
+ * An entity is declared in the internal subset of a DTD.
+ * The srcML of a unit is taken from the document as it is, which is not possible with
+ * content that is (recursively) replaced by the parser. srcML does not declare entities,
+ * so the document is not srcML.
+ */
+void entity_declaration(void* ctx, const xmlChar* /* name */, int /* type */, const xmlChar* /* publicId */, const xmlChar* /* systemId */, xmlChar* /* content */) {
+
+    auto ctxt = (xmlParserCtxtPtr) ctx;
+    if (ctxt == nullptr)
+        return;
+
+    xmlStopParser(ctxt);
+}
+
 /**
  * cdata_block
  * @param ctx an xmlParserCtxtPtr
diff --git a/src/libsrcml/sax2_srcsax_handler.hpp b/src/libsrcml/sax2_srcsax_handler.hpp
index c5bad23..e8c1938 100644
--- a/src/libsrcml/sax2_srcsax_handler.hpp
+++ b/src/libsrcml/sax2_srcsax_handler.hpp
@@ -270,6 +270,19 @@ void characters_unit(void* ctx, const xmlChar* ch, int len);
  */
 void comment(void* ctx, const xmlChar* value);
 
+/**
+ * entity_declaration
+ * @param ctx an xmlParserCtxtPtr
+ * @param name the entity name
+ * @param type the entity type
+ * @param publicId the public identifier
+ * @param systemId the system identifier
+ * @param content the value of the entity
+ *
+ * Called when an entity is declared. Stops the parsing, since it is not srcML.
+ */
+void entity_declaration(void* ctx, const xmlChar* name, int type, const xmlChar* publicId, const xmlChar* systemId, xmlChar* content);
+
 /**
  * cdata_block
  * @param ctx an xmlParserCtxtPtr
diff --git a/src/libsrcml/srcSAXController.cpp b/src/libsrcml/srcSAXController.cpp
index 990b85f..0228f8a 100644
--- a/src/libsrcml/srcSAXController.cpp
+++ b/src/libsrcml/srcSAXController.cpp
@@ -83,7 +83,9 @@ void srcSAXController::parse(srcSAXHandler * handler) {
     if (status != 0) {
 
         xmlErrorPtr ep = xmlCtxtGetLastError(context->libxml2_context);
-        SAXError error = { std::string(ep->message), ep->code };
+
+        // no error is recorded when the parser was stopped
+        SAXError error = { ep ? std::string(ep->message) : std::string("Parsing stopped\n"), ep ? ep->code : XML_ERR_USER_STOP };
 
         throw error;
     }
-- 
2.43.0


From 8aff53d4825c747eed05b037c485099a2ed19e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:25 +0000
Subject: [PATCH 056/115] fix: the document libxml2 creates for declared
 entities is freed

---
 src/libsrcml/srcsax_controller.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/srcsax_controller.cpp b/src/libsrcml/srcsax_controller.cpp
index 332c5b0..155ebf7 100644
--- a/src/libsrcml/srcsax_controller.cpp
+++ b/src/libsrcml/srcsax_controller.cpp
@@ -94,8 +94,16 @@ void srcsax_free_context(srcsax_context* context) {
     if (context == 0)
         return;
 
-    if (context->libxml2_context)
+    if (context->libxml2_context) {
+
+        // libxml2 creates a document for the entities of a DTD
+        if (context->libxml2_context->myDoc) {
+            xmlFreeDoc(context->libxml2_context->myDoc);
+            context->libxml2_context->myDoc = nullptr;
+        }
+
         xmlFreeParserCtxt(context->libxml2_context);
+    }
 
     delete context;
 }
-- 
2.43.0


From 19a1fded73fcefb6939059903d83876b9605ddc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:02 +0000
Subject: [PATCH 057/115] fix: everything is written to a file descriptor that
 takes only part of a write

---
 src/libsrcml/libxml2_utilities.hpp | 39 ++++++++++++++++++++++++++++++
 src/libsrcml/srcml_archive.cpp     |  3 ++-
 src/libsrcml/srcml_unit.cpp        |  2 +-
 3 files changed, 42 insertions(+), 2 deletions(-)

diff --git a/src/libsrcml/libxml2_utilities.hpp b/src/libsrcml/libxml2_utilities.hpp
index 7bdf835..2488051 100644
--- a/src/libsrcml/libxml2_utilities.hpp
+++ b/src/libsrcml/libxml2_utilities.hpp
@@ -28,6 +28,13 @@
 #include <libxml/relaxng.h>
 #include <algorithm>
 #include <memory>
+#include <cerrno>
+#include <cstddef>
+#ifdef _MSC_BUILD
+#include <io.h>
+#else
+#include <unistd.h>
+#endif
 
 // std::unique_ptr deleter functions for libxml2
 // usage: std::unique<xmlDoc> p(xmlReadMemory);
@@ -85,4 +92,36 @@ namespace std {
     };
 }
 
+/**
+ * createOutputBufferFd
+ * @param fd an open file descriptor
+ * @param handler encoding handler, or nullptr
+ *
+ * As xmlOutputBufferCreateFd(), but everything is written. A write() may write only part
+ * of the data (e.g., a pipe, a socket, or a full disk), and libxml2 does not write the rest.
+ */
+inline xmlOutputBufferPtr createOutputBufferFd(int fd, xmlCharEncodingHandlerPtr handler) {
+
+    xmlOutputBufferPtr output = xmlOutputBufferCreateFd(fd, handler);
+    if (output && output->writecallback) {
+
+        output->writecallback = [](void* context, const char* buffer, int len) -> int {
+
+            const int fd = (int) (ptrdiff_t) context;
+            int written = 0;
+            while (written < len) {
+                const int n = (int) write(fd, buffer + written, (size_t) (len - written));
+                if (n < 0 && errno == EINTR)
+                    continue;
+                if (n <= 0)
+                    return -1;
+                written += n;
+            }
+            return written;
+        };
+    }
+
+    return output;
+}
+
 #endif
diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index 5492e68..97a7e2a 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -23,6 +23,7 @@
 #include <srcmlns.hpp>
 #include <srcml_translator.hpp>
 #include <srcml_sax2_reader.hpp>
+#include <libxml2_utilities.hpp>
 #include <libxml/encoding.h>
 
 /**
@@ -1010,7 +1011,7 @@ int srcml_archive_write_open_fd(struct srcml_archive* archive, int srcml_fd) {
     if (archive->type != SRCML_ARCHIVE_INVALID)
         return SRCML_STATUS_INVALID_IO_OPERATION;
 
-    archive->output_buffer = xmlOutputBufferCreateFd(srcml_fd, 0);
+    archive->output_buffer = createOutputBufferFd(srcml_fd, 0);
     if (!archive->output_buffer)
         return SRCML_STATUS_IO_ERROR;
 
diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index 59504ff..ab6c759 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -883,7 +883,7 @@ int srcml_unit_unparse_fd(struct srcml_unit* unit, int srcml_fd) {
 
     return srcml_unit_unparse_internal(unit, [srcml_fd](xmlCharEncodingHandlerPtr handler) {
 
-        return xmlOutputBufferCreateFd(srcml_fd, handler);
+        return createOutputBufferFd(srcml_fd, handler);
     });
 }
 
-- 
2.43.0


From d223919ea514555e5b63703516d0a47790e1ab9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:56 +0000
Subject: [PATCH 058/115] fix: calls of the write functions outside an element
 do not damage the unit

---
 src/libsrcml/srcml_translator.cpp | 41 ++++++++++++++++++++-----------
 src/libsrcml/srcml_unit.cpp       |  2 +-
 2 files changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/libsrcml/srcml_translator.cpp b/src/libsrcml/srcml_translator.cpp
index 878398b..8d705aa 100644
--- a/src/libsrcml/srcml_translator.cpp
+++ b/src/libsrcml/srcml_translator.cpp
@@ -332,14 +332,21 @@ bool srcml_translator::add_start_element(const char* prefix, const char* name, c
     if (strcmp(name, "unit") == 0)
         return false;
 
-    ++output_unit_depth;
+    // an empty prefix is no prefix
+    if (prefix && *prefix == '\0')
+        prefix = nullptr;
 
     const char* used_uri = nullptr;
     if (uri == nullptr || strcmp(SRCML_SRC_NS_URI, uri) != 0) {
         used_uri = uri;
     }
 
-    return xmlTextWriterStartElementNS(out.getWriter(), BAD_CAST prefix, BAD_CAST name, BAD_CAST used_uri) != -1;
+    if (xmlTextWriterStartElementNS(out.getWriter(), BAD_CAST prefix, BAD_CAST name, BAD_CAST used_uri) == -1)
+        return false;
+
+    ++output_unit_depth;
+
+    return true;
 }
 
 /**
@@ -352,7 +359,8 @@ bool srcml_translator::add_start_element(const char* prefix, const char* name, c
  */
 bool srcml_translator::add_end_element() {
 
-    if (!is_outputting_unit)
+    // the unit itself is not ended by an end element
+    if (!is_outputting_unit || output_unit_depth <= 0)
         return false;
 
     --output_unit_depth;
@@ -372,11 +380,12 @@ bool srcml_translator::add_end_element() {
  */
 bool srcml_translator::add_namespace(const char* prefix, const char *uri) {
 
-    if (!is_outputting_unit || uri == 0)
+    // the start tag of the unit itself is created from the properties of the unit
+    if (!is_outputting_unit || output_unit_depth <= 0 || uri == 0)
         return false;
 
     std::string name = "xmlns";
-    if (prefix) {
+    if (prefix && *prefix) {
         name += ":";
         name += prefix;
     }
@@ -398,9 +407,14 @@ bool srcml_translator::add_namespace(const char* prefix, const char *uri) {
  */
 bool srcml_translator::add_attribute(const char* prefix, const char* name, const char* uri, const char* content) {
 
-    if (!is_outputting_unit || name == 0)
+    // the start tag of the unit itself is created from the properties of the unit
+    if (!is_outputting_unit || output_unit_depth <= 0 || name == 0 || content == 0)
         return false;
 
+    // an empty prefix is no prefix
+    if (prefix && *prefix == '\0')
+        prefix = nullptr;
+
     return xmlTextWriterWriteAttributeNS(out.getWriter(), BAD_CAST prefix, BAD_CAST name, BAD_CAST uri, BAD_CAST content) != -1;
 }
 
@@ -419,21 +433,18 @@ bool srcml_translator::add_string(const char *content) {
     if (!is_outputting_unit || content == 0)
         return false;
 
-    char* text = (char *)content;
-    for (char * pos = text; *pos; ++pos) {
-
-        if (*pos != '"')
-            continue;
+    // double quotes do not need to be escaped in text
+    const char* text = content;
+    while (const char* quote = strchr(text, '"')) {
 
-        *pos = 0;
-        if (xmlTextWriterWriteString(out.getWriter(), BAD_CAST text) == -1)
+        const std::string part(text, quote - text);
+        if (xmlTextWriterWriteString(out.getWriter(), BAD_CAST part.c_str()) == -1)
             return false;
 
-        *pos = '\"';
         if (xmlTextWriterWriteRaw(out.getWriter(), BAD_CAST "\"") == -1)
             return false;
 
-        text = pos + 1;
+        text = quote + 1;
     }
 
     return xmlTextWriterWriteString(out.getWriter(), BAD_CAST text) != -1;
diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index ab6c759..19e2f73 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -1170,7 +1170,7 @@ int srcml_write_namespace(struct srcml_unit* unit, const char* prefix, const cha
  */
 int srcml_write_attribute(struct srcml_unit* unit, const char* prefix, const char* name, const char* uri, const char* content) {
 
-    if (unit == nullptr || name == nullptr)
+    if (unit == nullptr || name == nullptr || content == nullptr)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
     if (unit->unit_translator == nullptr || !unit->unit_translator->add_attribute(prefix, name, uri, content))
-- 
2.43.0


From a683167be69caeb6154bd504eee92b331f717e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:47 +0000
Subject: [PATCH 059/115] fix: a namespace declared on the archive and again on
 a unit is not repeated in the srcML of the unit

---
 src/libsrcml/sax2_srcsax_handler.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index cb1d9ef..c5cd08d 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -480,7 +480,24 @@ void start_unit(void* ctx, const xmlChar* localname, const xmlChar* prefix, cons
             if (state->context->is_archive) {
                 if (noattributes)
                     state->unitsrcml += ' ';
-                state->unitsrcml.append(state->rootnsstr);
+
+                // namespaces that the unit declares itself replace those of the root
+                std::string rootnsstr = state->rootnsstr;
+                for (int i = 0; i < nb_namespaces * 2; i += 2) {
+
+                    std::string name = "xmlns";
+                    if (namespaces[i])
+                        name.append(":").append((const char*) namespaces[i]);
+                    name += "=\"";
+
+                    auto nspos = rootnsstr.compare(0, name.size(), name) == 0 ? 0 : rootnsstr.find("\" " + name);
+                    if (nspos == std::string::npos)
+                        continue;
+                    if (nspos)
+                        nspos += 2;
+                    rootnsstr.erase(nspos, rootnsstr.find('"', nspos + name.size()) + 2 - nspos);
+                }
+                state->unitsrcml.append(rootnsstr);
                 state->insert_end = (int) state->unitsrcml.size();
             }
 
-- 
2.43.0


From 2a880113b2f79a9a751418ab672000c17dabfcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:58 +0000
Subject: [PATCH 060/115] fix: A srcDiff revision is extracted no matter the
 prefix, with empty difference elements and with markup in comments,
 attributes, and CDATA

---
 src/libsrcml/srcml_translator.cpp |  2 +-
 src/libsrcml/srcml_unit.cpp       |  8 ++--
 src/libsrcml/unit_utilities.cpp   | 73 ++++++++++++++++++++++++++-----
 src/libsrcml/unit_utilities.hpp   |  5 ++-
 4 files changed, 70 insertions(+), 18 deletions(-)

diff --git a/src/libsrcml/srcml_translator.cpp b/src/libsrcml/srcml_translator.cpp
index 8d705aa..b60c5d9 100644
--- a/src/libsrcml/srcml_translator.cpp
+++ b/src/libsrcml/srcml_translator.cpp
@@ -241,7 +241,7 @@ bool srcml_translator::add_unit(const srcml_unit* unit) {
 
     if (unit->archive->revision_number && issrcdiff(unit->archive->namespaces)) {
 
-        std::string s = extract_revision(unit->srcml.c_str() + unit->content_begin, size, (int) *unit->archive->revision_number);
+        std::string s = extract_revision(unit->srcml.c_str() + unit->content_begin, size, (int) *unit->archive->revision_number, srcdiff_prefix(unit->archive->namespaces));
 
         xmlTextWriterWriteRawLen(out.getWriter(), BAD_CAST s.c_str(), (int) s.size());
 
diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index 19e2f73..318b12d 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -369,7 +369,7 @@ const char* srcml_unit_get_srcml(struct srcml_unit* unit) {
     if (unit->archive->revision_number && issrcdiff(unit->archive->namespaces)) {
         update_revision_cache(unit);
         if (!unit->srcml_revision)
-            unit->srcml_revision = extract_revision(unit->srcml.c_str(), (int) unit->srcml.size(), (int) *unit->archive->revision_number);
+            unit->srcml_revision = extract_revision(unit->srcml.c_str(), (int) unit->srcml.size(), (int) *unit->archive->revision_number, srcdiff_prefix(unit->archive->namespaces));
         return unit->srcml_revision->c_str();
     }
 
@@ -442,7 +442,7 @@ const char* srcml_unit_get_srcml_outer(struct srcml_unit* unit) {
     if (unit->archive->revision_number && issrcdiff(unit->archive->namespaces)) {
         update_revision_cache(unit);
         if (!unit->srcml_fragment_revision)
-            unit->srcml_fragment_revision = extract_revision(unit->srcml_fragment->c_str(), (int) unit->srcml_fragment->size(), (int) *unit->archive->revision_number);
+            unit->srcml_fragment_revision = extract_revision(unit->srcml_fragment->c_str(), (int) unit->srcml_fragment->size(), (int) *unit->archive->revision_number, srcdiff_prefix(unit->archive->namespaces));
         return unit->srcml_fragment_revision->c_str();
     }
 
@@ -480,7 +480,7 @@ const char* srcml_unit_get_srcml_inner(struct srcml_unit* unit) {
     if (unit->archive->revision_number && issrcdiff(unit->archive->namespaces)) {
         update_revision_cache(unit);
         if (!unit->srcml_raw_revision)
-            unit->srcml_raw_revision = extract_revision(unit->srcml.c_str() + start, rawsize, (int) *unit->archive->revision_number);
+            unit->srcml_raw_revision = extract_revision(unit->srcml.c_str() + start, rawsize, (int) *unit->archive->revision_number, srcdiff_prefix(unit->archive->namespaces));
         return unit->srcml_raw_revision->c_str();
     }
 
@@ -740,7 +740,7 @@ static int srcml_unit_unparse_internal(struct srcml_unit* unit, std::function<xm
     // for a srcdiff revision, only the source of that revision
     const bool isrevision = unit->archive->revision_number && issrcdiff(unit->archive->namespaces);
     const std::string revisionsrc = isrevision ?
-        extract_src(extract_revision(unit->srcml.c_str(), (int) unit->srcml.size(), (int) *unit->archive->revision_number)) : "";
+        extract_src(extract_revision(unit->srcml.c_str(), (int) unit->srcml.size(), (int) *unit->archive->revision_number, srcdiff_prefix(unit->archive->namespaces))) : "";
     const std::string& src = isrevision ? revisionsrc : *unit->src;
 
     // if EOL is not auto, then need to convert for
diff --git a/src/libsrcml/unit_utilities.cpp b/src/libsrcml/unit_utilities.cpp
index e1005ad..9718257 100644
--- a/src/libsrcml/unit_utilities.cpp
+++ b/src/libsrcml/unit_utilities.cpp
@@ -23,6 +23,8 @@
 #include <unit_utilities.hpp>
 #include <libxml/parserInternals.h>
 #include <stack>
+#include <algorithm>
+#include <cstring>
 
 // Actual value of an attribute or namespace value from libxml2 SAX2 handlers
 std::string unescape_value(std::string value) {
@@ -101,9 +103,45 @@ void unit_update_attributes(srcml_unit* unit, int num_attributes, const xmlChar*
 
 enum { INSERT, DELETE, COMMON};
 
-std::string extract_revision(const char* srcml, int size, int revision, bool text_only) {
+// position after the markup (tag, comment, CDATA section, processing instruction) that starts at p, or null if it is not complete
+static const char* markup_end(const char* p, const char* end) {
 
-    const char* DIFF_PREFIX = "diff:";
+    auto after = [=](const char* what) -> const char* {
+        auto pos = std::search(p, end, what, what + strlen(what));
+        return pos == end ? nullptr : pos + strlen(what);
+    };
+
+    auto starts = [=](const char* what) {
+        return (size_t) (end - p) >= strlen(what) && strncmp(p, what, strlen(what)) == 0;
+    };
+
+    if (starts("<!--"))
+        return after("-->");
+    if (starts("<![CDATA["))
+        return after("]]>");
+    if (starts("<?"))
+        return after("?>");
+
+    // tag, where attribute values may contain a '>'
+    char quote = 0;
+    for (; p != end; ++p) {
+        if (quote) {
+            if (*p == quote)
+                quote = 0;
+        } else if (*p == '"' || *p == '\'') {
+            quote = *p;
+        } else if (*p == '>') {
+            return p + 1;
+        }
+    }
+
+    return nullptr;
+}
+
+// Extract the srcML of a revision, where the difference elements have the given namespace prefix
+std::string extract_revision(const char* srcml, int size, int revision, const std::string& diff_prefix) {
+
+    const std::string DIFF_PREFIX = diff_prefix + ':';
 
     std::stack<int> mode;
     mode.push(COMMON);
@@ -111,7 +149,8 @@ std::string extract_revision(const char* srcml, int size, int revision, bool tex
     std::string news;
     const char* p = srcml;
     const char* lp = p;
-    while ((p = (const char*) memchr(p, '<', size - (p - srcml)))) {
+    const char* end = srcml + size;
+    while ((p = (const char*) memchr(p, '<', end - p))) {
 
         bool inmode = mode.top() == COMMON || (revision == 0 && mode.top() == DELETE) || (revision == 1 && mode.top() == INSERT);
 
@@ -122,18 +161,19 @@ std::string extract_revision(const char* srcml, int size, int revision, bool tex
         auto sp = p;
 
         // skip to end of tag
-        p = (const char*) memchr(p, '>', size - (p - srcml));
+        p = markup_end(p, end);
         if (p == nullptr) {
-            lp = srcml + size;
+            lp = end;
             break;
         }
-        ++p;
 
-        if (strncmp(sp + 1, DIFF_PREFIX, strlen(DIFF_PREFIX)) == 0) {
+        if (strncmp(sp + 1, DIFF_PREFIX.c_str(), DIFF_PREFIX.size()) == 0) {
 
-            const char* tstart = sp + 1 + strlen(DIFF_PREFIX);
+            const char* tstart = sp + 1 + DIFF_PREFIX.size();
 
-            if (strncmp(tstart, "delete", 6) == 0) {
+            if (*(p - 2) == '/') {
+                // empty element
+            } else if (strncmp(tstart, "delete", 6) == 0) {
                 mode.push(DELETE);
             } else if (strncmp(tstart, "insert", 6) == 0) {
                 mode.push(INSERT);
@@ -141,12 +181,12 @@ std::string extract_revision(const char* srcml, int size, int revision, bool tex
                 mode.push(COMMON);
             }
         }
-        else if (*(sp + 1) == '/' && strncmp(sp + 2, DIFF_PREFIX, strlen(DIFF_PREFIX)) == 0) {
+        else if (*(sp + 1) == '/' && strncmp(sp + 2, DIFF_PREFIX.c_str(), DIFF_PREFIX.size()) == 0) {
             if (mode.size() > 1)
                 mode.pop();
         }
         else {
-            if (inmode && !text_only)
+            if (inmode)
                 news.append(sp, p - sp);
         }
 
@@ -155,11 +195,20 @@ std::string extract_revision(const char* srcml, int size, int revision, bool tex
 
     // output text after the last tag
     if (mode.top() == COMMON || (revision == 0 && mode.top() == DELETE) || (revision == 1 && mode.top() == INSERT))
-        news.append(lp, srcml + size - lp);
+        news.append(lp, end - lp);
 
     return news;
 }
 
+// Prefix of the srcDiff namespace
+std::string srcdiff_prefix(const Namespaces& namespaces) {
+
+    auto&& view = namespaces.get<nstags::uri>();
+    auto it = view.find(SRCML_DIFF_NS_URI);
+
+    return it != view.end() ? it->prefix : "diff";
+}
+
 struct extract_context {
     std::string s;
     boost::optional<int> revision;
diff --git a/src/libsrcml/unit_utilities.hpp b/src/libsrcml/unit_utilities.hpp
index f6ef70b..e14971f 100644
--- a/src/libsrcml/unit_utilities.hpp
+++ b/src/libsrcml/unit_utilities.hpp
@@ -41,7 +41,10 @@ void unit_update_attributes(srcml_unit* unit, int num_attributes, const xmlChar*
 
 // Extract source code from srcml
 std::string extract_src(const std::string& srcml, boost::optional<int> revision = boost::none);
-std::string extract_revision(const char* srcml, int size, int revision, bool text_only = false);
+std::string extract_revision(const char* srcml, int size, int revision, const std::string& diff_prefix = "diff");
+
+// Prefix of the srcDiff namespace
+std::string srcdiff_prefix(const Namespaces& namespaces);
 std::string attribute_revision(const std::string& attribute, int revision);
 
 #endif
-- 
2.43.0


From 3969b13f96e34c67823815ca9c7702f602002313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:47 +0000
Subject: [PATCH 061/115] fix: namespaces that the archive a unit is read from
 declares are declared where the unit is written

---
 src/libsrcml/srcml_translator.cpp | 33 +++++++++++++++++++++++++++++++
 src/libsrcml/srcml_translator.hpp |  3 +++
 src/libsrcml/srcmlns.hpp          |  1 +
 src/parser/srcMLOutput.cpp        |  4 ++--
 4 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/src/libsrcml/srcml_translator.cpp b/src/libsrcml/srcml_translator.cpp
index b60c5d9..caf9fb3 100644
--- a/src/libsrcml/srcml_translator.cpp
+++ b/src/libsrcml/srcml_translator.cpp
@@ -177,6 +177,7 @@ void srcml_translator::prepareOutput() {
 
     if (is_archive) {
         out.startUnit(0, revision, url, filename, version, 0, 0, 0, attributes, true);
+        root_namespaces = out.getNamespaces();
     }
 }
 
@@ -207,6 +208,18 @@ bool srcml_translator::add_unit(const srcml_unit* unit) {
     // if the unit has namespaces, then use those
     Namespaces mergedns = unit->archive->namespaces;
 
+    // prefixes that a read unit declares again hide those of the archive
+    if (unit->namespaces && unit->archive->type == SRCML_ARCHIVE_READ) {
+
+        auto&& view = mergedns.get<nstags::prefix>();
+        for (const auto& ns : *unit->namespaces) {
+
+            auto it = view.find(ns.prefix);
+            if ((ns.flags & NS_USED) && it != view.end() && it->uri != ns.uri && !(it->flags & NS_REQUIRED))
+                view.erase(it);
+        }
+    }
+
     if (unit->namespaces) {
         mergedns += *unit->namespaces;
     }
@@ -220,6 +233,26 @@ bool srcml_translator::add_unit(const srcml_unit* unit) {
         }
     }
 
+    // namespaces that the archive the unit is read from declares, and this archive does not on its root,
+    // are declared on the unit
+    if (unit->archive->type == SRCML_ARCHIVE_READ) {
+
+        auto&& root_view = root_namespaces.get<nstags::uri>();
+        for (const auto& ns : mergedns) {
+
+            // declared on the root (i.e., registered or required) or on the unit (i.e., used)
+            if (!(ns.flags & (NS_REGISTERED | NS_REQUIRED | NS_USED)))
+                continue;
+
+            auto root_it = root_view.find(ns.uri);
+            const bool on_root = root_it != root_view.end() && root_it->prefix == ns.prefix &&
+                ((root_it->flags & NS_STANDARD) ? (root_it->flags & NS_REQUIRED) || ((root_it->flags & NS_ROOT) && (root_it->flags & NS_USED))
+                                                : (root_it->flags & NS_REGISTERED));
+            if (!on_root)
+                ns.flags |= NS_UNIT;
+        }
+    }
+
     std::string language = unit->language ? *unit->language : Language(unit->derived_language).getLanguageString();
 
     // create a new unit start tag with all new info (hash value, namespaces actually used, etc.)
diff --git a/src/libsrcml/srcml_translator.hpp b/src/libsrcml/srcml_translator.hpp
index df01d55..e77327b 100644
--- a/src/libsrcml/srcml_translator.hpp
+++ b/src/libsrcml/srcml_translator.hpp
@@ -125,6 +125,9 @@ private:
 
     Namespaces namespaces;
 
+    /** namespaces of the root unit of an archive */
+    Namespaces root_namespaces;
+
     /** translation options */
     OPTION_TYPE options;
 
diff --git a/src/libsrcml/srcmlns.hpp b/src/libsrcml/srcmlns.hpp
index 0972700..8932673 100644
--- a/src/libsrcml/srcmlns.hpp
+++ b/src/libsrcml/srcmlns.hpp
@@ -41,6 +41,7 @@ enum {
   NS_USED       = 1 << 2, // was the namespace used
   NS_REGISTERED = 1 << 3, // registered by the user
   NS_STANDARD   = 1 << 4, // standard uri for srcML
+  NS_UNIT       = 1 << 5, // declared on the unit, since the root does not declare it
 };
 
 struct Namespace {
diff --git a/src/parser/srcMLOutput.cpp b/src/parser/srcMLOutput.cpp
index 444e735..878dcb9 100644
--- a/src/parser/srcMLOutput.cpp
+++ b/src/parser/srcMLOutput.cpp
@@ -279,8 +279,8 @@ void srcMLOutput::outputNamespaces(xmlTextWriterPtr xout, const OPTION_TYPE& opt
         // output standard namespaces for inner unit or non-archive unit
         if (depth == 1 || !isoption(options, SRCML_OPTION_ARCHIVE)) {
 
-            // must be required, must not be on the root, and must be used
-            if ((ns.flags & NS_STANDARD) && !(ns.flags & NS_ROOT) && !(ns.flags & NS_REQUIRED) && (ns.flags & NS_USED)) {
+            // must be for the unit, or must be required, must not be on the root, and must be used
+            if ((ns.flags & NS_UNIT) || ((ns.flags & NS_STANDARD) && !(ns.flags & NS_ROOT) && !(ns.flags & NS_REQUIRED) && (ns.flags & NS_USED))) {
                 srcMLTextWriterWriteNamespace(xout, ns);
                 continue;
             }
-- 
2.43.0


From fc86646f336b1c18cabce218c2af83f5d582dc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:19 +0000
Subject: [PATCH 062/115] fix: a tab stop of 0 does not divide by zero when
 positions are computed

---
 src/libsrcml/srcml_translator.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/libsrcml/srcml_translator.cpp b/src/libsrcml/srcml_translator.cpp
index caf9fb3..c75b2f5 100644
--- a/src/libsrcml/srcml_translator.cpp
+++ b/src/libsrcml/srcml_translator.cpp
@@ -32,6 +32,7 @@
 #include "srcmlns.hpp"
 #include <srcml_types.hpp>
 #include <unit_utilities.hpp>
+#include <algorithm>
 
 /**
  * srcml_translator
@@ -122,18 +123,21 @@ void srcml_translator::translate(UTF8CharBuffer* parser_input) {
 
     try {
 
+        // a tab moves to a following column, and one that columns can record
+        const int lexer_tabsize = (int) std::min<size_t>(std::max<size_t>(tabsize, 1), 0xFFFF);
+
         // master lexer with multiple streams
         antlr::TokenStreamSelector selector;
 
         // srcML lexical analyzer from standard input
         KeywordLexer lexer(parser_input, getLanguage(), options, user_macro_list);
         lexer.setSelector(&selector);
-        lexer.setTabsize((int)tabsize);
+        lexer.setTabsize(lexer_tabsize);
 
         // pure block comment lexer
         CommentTextLexer textlexer(lexer.getInputState());
         textlexer.setSelector(&selector);
-        textlexer.setTabsize((int)tabsize);
+        textlexer.setTabsize(lexer_tabsize);
 
         // switching between lexers
         selector.addInputStream(&lexer, "main");
-- 
2.43.0


From eb69d89a10e277bd0ac6a87d25121f58984d4a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:39 +0000
Subject: [PATCH 063/115] fix: positions of a unit being written again apply to
 its srcML only when it is ended

---
 src/libsrcml/srcml_types.hpp |  5 +++++
 src/libsrcml/srcml_unit.cpp  | 18 +++++++++++-------
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/libsrcml/srcml_types.hpp b/src/libsrcml/srcml_types.hpp
index 0d741fa..838cf48 100644
--- a/src/libsrcml/srcml_types.hpp
+++ b/src/libsrcml/srcml_types.hpp
@@ -241,6 +241,11 @@ struct srcml_unit {
     int insert_begin = 0;
     int insert_end = 0;
 
+    /** positions in the start tag of the unit being written, used for the srcml when the unit is ended */
+    int output_content_begin = 0;
+    int output_insert_begin = 0;
+    int output_insert_end = 0;
+
     int loc = -1;
 
     /** error reporting */
diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index 318b12d..68c21de 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -986,15 +986,15 @@ int srcml_write_start_unit(struct srcml_unit* unit) {
 
     // record start of content (after the unit start tag)
     xmlTextWriterFlush(unit->unit_translator->output_textwriter());
-    unit->content_begin = unit->unit_translator->output_buffer()->written + 1;
+    unit->output_content_begin = unit->unit_translator->output_buffer()->written + 1;
 
     // record end of content (after xmlns for srcML)
     const char* s = (const char*) xmlBufferContent(unit->output_buffer);
     auto pos = strstr(s, "xmlns") - s;
-    unit->insert_begin = (int) pos;
+    unit->output_insert_begin = (int) pos;
     auto firstquote = strchr(s + pos + 1, '\"') - s;
     auto secondquote = strchr(s + firstquote + 1, '\"') - s;
-    unit->insert_end = (int) secondquote + 2;
+    unit->output_insert_end = (int) secondquote + 2;
 
     return SRCML_STATUS_OK;
 }
@@ -1022,7 +1022,7 @@ int srcml_write_end_unit(struct srcml_unit* unit) {
 
     // record end of content (before the unit end tag)
     xmlTextWriterFlush(unit->unit_translator->output_textwriter());
-    unit->content_end = unit->unit_translator->output_buffer()->written + 1;
+    int content_end = unit->unit_translator->output_buffer()->written + 1;
 
     // end the unit (and any open elements)
     if (!unit->unit_translator->add_end_unit())
@@ -1035,8 +1035,7 @@ int srcml_write_end_unit(struct srcml_unit* unit) {
     char* srcml = (char*) xmlBufferDetach(unit->output_buffer);
 
     // record the current content_begin (which may change)
-    int content_begin = unit->content_begin;
-    int content_end = unit->content_end;
+    int content_begin = unit->output_content_begin;
 
     // redo the start element with the namespaces found in the document
     srcml_write_start_unit(unit);
@@ -1053,8 +1052,13 @@ int srcml_write_end_unit(struct srcml_unit* unit) {
         unit->srcml.append("/>");
     }
 
+    // positions are those of the rewritten start tag
+    unit->content_begin = unit->output_content_begin;
+    unit->insert_begin = unit->output_insert_begin;
+    unit->insert_end = unit->output_insert_end;
+
     // content end is changed since the start unit tag was rewritten
-    unit->content_end += (unit->content_begin - content_begin);
+    unit->content_end = content_end + (unit->content_begin - content_begin);
 
     free(start_tag);
     free(srcml);
-- 
2.43.0


From 1fb7f93d0252ce9a5df5dad6f55b04f74b69457f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:39 +0000
Subject: [PATCH 064/115] fix: the srcDiff revision of an empty unit does not
 search past its srcML

---
 src/libsrcml/srcml_translator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libsrcml/srcml_translator.cpp b/src/libsrcml/srcml_translator.cpp
index c75b2f5..96546a6 100644
--- a/src/libsrcml/srcml_translator.cpp
+++ b/src/libsrcml/srcml_translator.cpp
@@ -276,7 +276,7 @@ bool srcml_translator::add_unit(const srcml_unit* unit) {
     // write out the contents, excluding the start and end unit tags
     int size = unit->content_end - unit->content_begin - 1;
 
-    if (unit->archive->revision_number && issrcdiff(unit->archive->namespaces)) {
+    if (size > 0 && unit->archive->revision_number && issrcdiff(unit->archive->namespaces)) {
 
         std::string s = extract_revision(unit->srcml.c_str() + unit->content_begin, size, (int) *unit->archive->revision_number, srcdiff_prefix(unit->archive->namespaces));
 
-- 
2.43.0


From 12056688f7e0e535d0fae681d75fcde8293f2750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:34 +0000
Subject: [PATCH 065/115] fix: a C# lambda arrow does not depend on the column
 of an operator on an earlier line

---
 src/parser/KeywordLexer.g  | 3 ++-
 src/parser/OperatorLexer.g | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parser/KeywordLexer.g b/src/parser/KeywordLexer.g
index efa1cd1..ffa2c16 100644
--- a/src/parser/KeywordLexer.g
+++ b/src/parser/KeywordLexer.g
@@ -311,6 +311,7 @@ public:
     bool isline;
     long line_number;
     int lastpos;
+    int lastline;
     int prev;
     int currentmode;
 
@@ -322,7 +323,7 @@ void changetotextlexer(int typeend, const std::string delimiter = "");
 KeywordLexer(UTF8CharBuffer* pinput, int language, OPTION_TYPE & options,
              std::vector<std::string> user_macro_list)
     : antlr::CharScanner(pinput,true), Language(language), options(options), onpreprocline(false), startline(true),
-    atstring(false), rawstring(false), delimiter(""), isline(false), line_number(-1), lastpos(0), prev(0)
+    atstring(false), rawstring(false), delimiter(""), isline(false), line_number(-1), lastpos(0), lastline(0), prev(0)
 {
     if (isoption(options, SRCML_OPTION_LINE))
        setLine(getLine() + (1 << 16));
diff --git a/src/parser/OperatorLexer.g b/src/parser/OperatorLexer.g
index 4cfa118..50dd959 100644
--- a/src/parser/OperatorLexer.g
+++ b/src/parser/OperatorLexer.g
@@ -129,7 +129,7 @@ OPERATORS options { testLiterals = true; } {
     '!' ('=')? |
     ':' (':')? |
 
-    '=' ('=' | { inLanguage(LANGUAGE_CSHARP) && (lastpos != (getColumn() - 1) || prev == ')' || prev == '#') }? '>')? |
+    '=' ('=' | { inLanguage(LANGUAGE_CSHARP) && (lastpos != (getColumn() - 1) || lastline != getLine() || prev == ')' || prev == '#') }? '>')? |
 
     // &, &&, &&=, &=
     '&' ('&')? ('=')? |
@@ -179,5 +179,5 @@ OPERATORS options { testLiterals = true; } {
 
     '\\' ( EOL { $setType(EOL_BACKSLASH); } )*
     )
-    { startline = false; lastpos = getColumn(); prev = start; }
+    { startline = false; lastpos = getColumn(); lastline = getLine(); prev = start; }
 ;
-- 
2.43.0


From 6a51923f270e246d181fe7851ab4c61fa238516b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:22 +0000
Subject: [PATCH 066/115] fix: a constructor after a nested class is a
 constructor of the class that has not ended

---
 src/parser/srcMLParser.g | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index d3f72e6..6c533e6 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -713,7 +713,8 @@ public:
     bool is_qmark = false;
     bool notdestructor = false;
     bool operatorname = false;
-    std::stack<std::string> class_namestack;
+    // names of the classes, each with the size of the mode stack where it starts
+    std::vector<std::pair<std::string, size_t>> class_namestack;
 
     bool skip_ternary = false;
 
@@ -749,6 +750,14 @@ public:
 
     }
 
+    // is the innermost class that has not ended of this name?
+    bool in_class_named(const std::string& name) const {
+        for (auto it = class_namestack.rbegin(); it != class_namestack.rend(); ++it)
+            if (it->second < (size_t) size())
+                return it->first == name;
+        return false;
+    }
+
     struct cppmodeitem {
         cppmodeitem(int current_size)
             : statesize(1, current_size), isclosed(false), skipelse(false) {}
@@ -3295,7 +3304,11 @@ class_header_base[] { bool insuper = false; ENTRY_DEBUG } :
     {
         setMode(MODE_CLASS_NAME);
 
-        class_namestack.push(LT(1)->getText());
+        // drop the names of classes that have ended
+        while (!class_namestack.empty() && class_namestack.back().second >= (size_t) size())
+            class_namestack.pop_back();
+
+        class_namestack.emplace_back(LT(1)->getText(), (size_t) size());
     }
         // suppress ()* warning
         ({ LA(1) != FINAL }? compound_name | keyword_name)
@@ -3493,11 +3506,6 @@ rcurly[] { ENTRY_DEBUG } :
             // basically, endDownToMode(MODE_TOP), but checking for class ending
             if (inTransparentMode(MODE_TOP)) {
                 while (size() > 1 && !inMode(MODE_TOP)) {
-                    if (inMode(MODE_CLASS))
-                        if (!class_namestack.empty()) {
-                            class_namestack.pop();
-                        }
-
                     endMode();
                 }
             }
@@ -4496,7 +4504,7 @@ pattern_check_core[int& token,      /* second token, after name (always returned
 
                  (
                     // inside of a C++ class definition must match class name
-                    (inMode(MODE_ACCESS_REGION) && !class_namestack.empty() && class_namestack.top() == namestack[0]) ||
+                    (inMode(MODE_ACCESS_REGION) && in_class_named(namestack[0])) ||
 
                     (inTransparentMode(MODE_ACCESS_REGION) && inMode(MODE_TEMPLATE)) ||
 
-- 
2.43.0


From 7d9603329f5447b8063f0e77a9996bd89a152681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:47 +0000
Subject: [PATCH 067/115] fix: declarators after the first of a member of a
 struct in a typedef are declarations

---
 src/parser/srcMLParser.g | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index 6c533e6..890233a 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -7372,7 +7372,7 @@ variable_declaration_nameinit[] { bool isthis = LA(1) == THIS; bool instypeprev
         {
             if (!inMode(MODE_LOCAL | MODE_VARIABLE_NAME | MODE_INIT | MODE_EXPECT)
               && inMode(MODE_LIST | MODE_VARIABLE_NAME | MODE_INIT | MODE_EXPECT)
-              && !inTransparentMode(MODE_TYPEDEF)
+              && (!inTransparentMode(MODE_TYPEDEF) || inTransparentMode(MODE_CLASS | MODE_INNER_DECL))
               && !inTransparentMode(MODE_USING)) {
 
                 startNewMode(MODE_LOCAL | MODE_VARIABLE_NAME | MODE_INIT | MODE_EXPECT);
-- 
2.43.0


From a729aa9ac4d562277fa654649c8a10b88e2f4129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:37 +0000
Subject: [PATCH 068/115] fix: source extracted to the current directory is not
 written to the root directory

---
 src/client/src_output_filesystem.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/client/src_output_filesystem.cpp b/src/client/src_output_filesystem.cpp
index 4e4e393..b85de8b 100644
--- a/src/client/src_output_filesystem.cpp
+++ b/src/client/src_output_filesystem.cpp
@@ -29,9 +29,7 @@
 void src_output_filesystem(srcml_archive* srcml_arch, const std::string& output_dir, TraceLog& log) {
 
     // construct the relative directory
-    std::string prefix;
-    if (output_dir != "." && output_dir != "./")
-        prefix = output_dir;
+    std::string prefix = output_dir;
 
     // create output directory structure as needed
     mkDir dir;
-- 
2.43.0


From 67164e0d52ce4e534b8a3946945823188e8bcc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:37 +0000
Subject: [PATCH 069/115] fix: the source of a unit written to a source archive
 is freed as it was allocated, and only used when there is one

---
 src/client/src_output_libarchive.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/client/src_output_libarchive.cpp b/src/client/src_output_libarchive.cpp
index 2fa7248..d66dc7c 100644
--- a/src/client/src_output_libarchive.cpp
+++ b/src/client/src_output_libarchive.cpp
@@ -56,10 +56,13 @@ void src_output_libarchive(srcml_archive* srcml_arch, archive* src_archive) {
             break;
 
         // Convert from srcML back to source in a buffer
-        char* buffer;
-        size_t buffer_size;
-        srcml_unit_unparse_memory(unit.get(), &buffer, &buffer_size);
-        std::unique_ptr<char> pbuffer(buffer);
+        char* buffer = nullptr;
+        size_t buffer_size = 0;
+        if (srcml_unit_unparse_memory(unit.get(), &buffer, &buffer_size) != SRCML_STATUS_OK) {
+            SRCMLstatus(WARNING_MSG, "Unable to extract the source of " + newfilename);
+            continue;
+        }
+        std::unique_ptr<char, decltype(&srcml_memory_free)> pbuffer(buffer, srcml_memory_free);
 
         // setup the entry
         archive_entry_set_pathname(entry.get(), newfilename.c_str());
-- 
2.43.0


From 8e3d6802679d3e7621e4e9b638c5d42420745e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:37 +0000
Subject: [PATCH 070/115] fix: a pretty format without a header or body does
 not read before it

---
 src/client/srcml_pretty.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/srcml_pretty.cpp b/src/client/srcml_pretty.cpp
index 83cee8a..deee764 100644
--- a/src/client/srcml_pretty.cpp
+++ b/src/client/srcml_pretty.cpp
@@ -75,11 +75,11 @@ pretty_template_t split_template_sections(const std::string& pretty_input) {
     pretty_template_t output_template;
 
     // For %{ %} cases - we'll just pretend we didn't see them.
-    if ((footer_pos != 0) && input_template[footer_pos - 1] == '%') {
+    if ((footer_pos != 0) && (footer_pos != std::string::npos) && input_template[footer_pos - 1] == '%') {
         input_template.erase(footer_pos - 1, 1);
         footer_pos = std::string::npos;
     }
-    if ((header_pos != 0) && input_template[header_pos - 1] == '%') {
+    if ((header_pos != 0) && (header_pos != std::string::npos) && input_template[header_pos - 1] == '%') {
         input_template.erase(header_pos - 1, 1);
         header_pos = std::string::npos;
     }
-- 
2.43.0


From 2dafee79d69b109ccf7be92a06ad108934114c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:37 +0000
Subject: [PATCH 071/115] fix: compressed source output ends

---
 src/client/create_src.cpp | 4 ++++
 src/client/srcml.cpp      | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/client/create_src.cpp b/src/client/create_src.cpp
index 4160409..2573d78 100644
--- a/src/client/create_src.cpp
+++ b/src/client/create_src.cpp
@@ -154,6 +154,10 @@ void create_src(const srcml_request_t& srcml_request,
             ++count;
         }
 
+        // the next step reads until the end of the pipe
+        if (*destination.fd != STDOUT_FILENO)
+            close(*destination.fd);
+
     } else if (input_sources.size() == 1 && destination.compressions.empty() && destination.archives.empty()) {
 
         auto arch(srcml_read_open_internal(input_sources[0], srcml_request.revision));
diff --git a/src/client/srcml.cpp b/src/client/srcml.cpp
index 7267ca5..c85ffd8 100644
--- a/src/client/srcml.cpp
+++ b/src/client/srcml.cpp
@@ -217,6 +217,10 @@ namespace {
     */
     bool request_output_compression(const srcml_request_t& request) {
 
+        // a source archive is written with its compression
+        if (request_create_src(request) && !request.output_filename.archives.empty())
+            return false;
+
         return request.output_filename.compressions.size() >= 1;
     }
 
-- 
2.43.0


From 9574c514d161c33b439f55b98e3e9d46d8c88839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:37 +0000
Subject: [PATCH 072/115] fix: the full information of an archive without units
 does not count one

---
 src/client/srcml_display_metadata.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client/srcml_display_metadata.cpp b/src/client/srcml_display_metadata.cpp
index 3d51872..19b47d0 100644
--- a/src/client/srcml_display_metadata.cpp
+++ b/src/client/srcml_display_metadata.cpp
@@ -109,7 +109,8 @@ namespace {
 
         if (long_info) {
 
-            ++unit_count;
+            if (unit)
+                ++unit_count;
 
             while (srcml_archive_skip_unit(srcml_arch)) {
 
-- 
2.43.0


From ef4c00b69a374403f2651e3207736560299164e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:37 +0000
Subject: [PATCH 073/115] fix: a written unit does not declare again the
 namespaces of its archive, nor those it does not use

---
 src/libsrcml/srcml_translator.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/libsrcml/srcml_translator.cpp b/src/libsrcml/srcml_translator.cpp
index 96546a6..bf7d401 100644
--- a/src/libsrcml/srcml_translator.cpp
+++ b/src/libsrcml/srcml_translator.cpp
@@ -237,10 +237,9 @@ bool srcml_translator::add_unit(const srcml_unit* unit) {
         }
     }
 
-    // namespaces that the archive the unit is read from declares, and this archive does not on its root,
-    // are declared on the unit
-    if (unit->archive->type == SRCML_ARCHIVE_READ) {
-
+    // namespaces that this archive declares on its root are not declared on the unit again, those that the archive
+    // the unit is read from declares, and this archive does not on its root, are declared on the unit
+    {
         auto&& root_view = root_namespaces.get<nstags::uri>();
         for (const auto& ns : mergedns) {
 
@@ -252,8 +251,20 @@ bool srcml_translator::add_unit(const srcml_unit* unit) {
             const bool on_root = root_it != root_view.end() && root_it->prefix == ns.prefix &&
                 ((root_it->flags & NS_STANDARD) ? (root_it->flags & NS_REQUIRED) || ((root_it->flags & NS_ROOT) && (root_it->flags & NS_USED))
                                                 : (root_it->flags & NS_REGISTERED));
-            if (!on_root)
-                ns.flags |= NS_UNIT;
+            if (on_root) {
+                ns.flags |= NS_ROOT;
+                continue;
+            }
+
+            if (unit->archive->type != SRCML_ARCHIVE_READ)
+                continue;
+
+            // cpp and openmp are only declared where used
+            if ((ns.uri == SRCML_CPP_NS_URI || ns.uri == SRCML_OPENMP_NS_URI) && !ns.prefix.empty() &&
+                unit->srcml.find(ns.prefix + ":", unit->content_begin) == std::string::npos)
+                continue;
+
+            ns.flags |= NS_UNIT;
         }
     }
 
-- 
2.43.0


From 2cb68107ebbfbe98eaf200f5a1a7235d048d8df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:12 +0000
Subject: [PATCH 074/115] fix: a written unit declares the namespaces of its
 attributes

---
 src/libsrcml/srcml_translator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libsrcml/srcml_translator.cpp b/src/libsrcml/srcml_translator.cpp
index bf7d401..c6f4920 100644
--- a/src/libsrcml/srcml_translator.cpp
+++ b/src/libsrcml/srcml_translator.cpp
@@ -261,7 +261,7 @@ bool srcml_translator::add_unit(const srcml_unit* unit) {
 
             // cpp and openmp are only declared where used
             if ((ns.uri == SRCML_CPP_NS_URI || ns.uri == SRCML_OPENMP_NS_URI) && !ns.prefix.empty() &&
-                unit->srcml.find(ns.prefix + ":", unit->content_begin) == std::string::npos)
+                unit->srcml.find(ns.prefix + ":") == std::string::npos)
                 continue;
 
             ns.flags |= NS_UNIT;
-- 
2.43.0


From aecd4190d13585161f9b1e410821f27d1b178fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:40 +0000
Subject: [PATCH 075/115] fix: settings of the archive that units are being
 written to are not set again

---
 src/client/create_srcml.cpp         | 3 ++-
 src/client/src_input_libarchive.cpp | 6 ++++--
 src/client/src_input_text.cpp       | 6 ++++--
 src/client/srcml_input_srcml.cpp    | 2 +-
 src/client/srcml_write.cpp          | 2 +-
 5 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/client/create_srcml.cpp b/src/client/create_srcml.cpp
index cc800e2..4d84840 100644
--- a/src/client/create_srcml.cpp
+++ b/src/client/create_srcml.cpp
@@ -74,7 +74,8 @@ int srcml_handler_dispatch(ParseQueue& queue,
 
     if (input.protocol == "filelist") {
 
-        srcml_archive_disable_solitary_unit(srcml_arch);
+        if (srcml_archive_is_solitary_unit(srcml_arch))
+            srcml_archive_disable_solitary_unit(srcml_arch);
 
         return src_input_filelist(queue, srcml_arch, srcml_request, input, destination);
     }
diff --git a/src/client/src_input_libarchive.cpp b/src/client/src_input_libarchive.cpp
index d7feb00..4e25423 100644
--- a/src/client/src_input_libarchive.cpp
+++ b/src/client/src_input_libarchive.cpp
@@ -152,8 +152,10 @@ int src_input_libarchive(ParseQueue& queue,
         // after the first archive_read_next_header() the archive knows the archive format
         // use this archive format to force a srcML archive output with archive source
         if (count == 0 && archive_format(arch.get()) != ARCHIVE_FORMAT_RAW && archive_format(arch.get()) != ARCHIVE_FORMAT_EMPTY) {
-            srcml_archive_disable_solitary_unit(srcml_arch);
-            srcml_archive_enable_hash(srcml_arch);
+            if (srcml_archive_is_solitary_unit(srcml_arch))
+                srcml_archive_disable_solitary_unit(srcml_arch);
+            if (!srcml_archive_has_hash(srcml_arch))
+                srcml_archive_enable_hash(srcml_arch);
         }
 
         // skip any directories
diff --git a/src/client/src_input_text.cpp b/src/client/src_input_text.cpp
index 59d970f..97f7a57 100644
--- a/src/client/src_input_text.cpp
+++ b/src/client/src_input_text.cpp
@@ -142,7 +142,8 @@ int src_input_text(ParseQueue& queue,
                     if (value == 0) {
                         ptext = epos + offset + 1;
 
-                        srcml_archive_disable_solitary_unit(srcml_arch);
+                        if (srcml_archive_is_solitary_unit(srcml_arch))
+                            srcml_archive_disable_solitary_unit(srcml_arch);
 
                         goto end;
                     }
@@ -194,7 +195,8 @@ int src_input_text(ParseQueue& queue,
                     if (value == 0) {
                         ptext = epos + offset;
 
-                        srcml_archive_disable_solitary_unit(srcml_arch);
+                        if (srcml_archive_is_solitary_unit(srcml_arch))
+                            srcml_archive_disable_solitary_unit(srcml_arch);
 
                         goto end;
                     }
diff --git a/src/client/srcml_input_srcml.cpp b/src/client/srcml_input_srcml.cpp
index 357e5d9..278d0fe 100644
--- a/src/client/srcml_input_srcml.cpp
+++ b/src/client/srcml_input_srcml.cpp
@@ -62,7 +62,7 @@ int srcml_input_srcml(ParseQueue& queue,
     // output is in srcML
     if (option(SRCML_COMMAND_XML)) {
 
-        if (!srcml_archive_is_solitary_unit(srcml_input_archive.get()) && srcml_input.unit == 0)
+        if (!srcml_archive_is_solitary_unit(srcml_input_archive.get()) && srcml_input.unit == 0 && srcml_archive_is_solitary_unit(srcml_output_archive))
             srcml_archive_disable_solitary_unit(srcml_output_archive);
 
         size_t nsSize = srcml_archive_get_namespace_size(srcml_input_archive.get());
diff --git a/src/client/srcml_write.cpp b/src/client/srcml_write.cpp
index e699e90..905d80b 100644
--- a/src/client/srcml_write.cpp
+++ b/src/client/srcml_write.cpp
@@ -150,7 +150,7 @@ void srcml_write_request(std::shared_ptr<ParseRequest> request, TraceLog& log, c
 
         // chance that a solo unit archive was the input, but transformation was
         // done, so output has to be a full archive
-        if (request->results && srcml_transform_get_unit_size(request->results) > 1) {
+        if (request->results && srcml_transform_get_unit_size(request->results) > 1 && srcml_archive_is_solitary_unit(output_archive)) {
             srcml_archive_disable_solitary_unit(output_archive);
         }
 
-- 
2.43.0


From 1ad5d632c6ffbf16e029d60b4761dc1538f39c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:51 +0000
Subject: [PATCH 076/115] fix: a file list's last line may be a single
 character

---
 src/client/src_input_filelist.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/client/src_input_filelist.cpp b/src/client/src_input_filelist.cpp
index fb56b82..964df84 100644
--- a/src/client/src_input_filelist.cpp
+++ b/src/client/src_input_filelist.cpp
@@ -80,14 +80,16 @@ int src_input_filelist(ParseQueue& queue,
            vbuffer.insert(vbuffer.end(), buffer, buffer + size);
     }
 
-    char* line = &vbuffer[0];
-    while (line < &vbuffer[vbuffer.size() - 1]) {
+    char* line = vbuffer.data();
+    char* const endline = line + vbuffer.size();
+    while (line != endline) {
 
         // find the line
         char* startline = line;
-        while (*line != '\n' && line != &vbuffer[vbuffer.size() - 1])
+        while (line != endline && *line != '\n')
+            ++line;
+        if (line != endline)
             ++line;
-        ++line;
 
         std::string sline(startline, line - startline);
 
-- 
2.43.0


From c16b39a627091d60e44e855bc4ef45183836dc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:51 +0000
Subject: [PATCH 077/115] fix: an empty string result is written without
 reading before it

---
 src/client/srcml_write.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/srcml_write.cpp b/src/client/srcml_write.cpp
index 905d80b..2460d24 100644
--- a/src/client/srcml_write.cpp
+++ b/src/client/srcml_write.cpp
@@ -135,7 +135,7 @@ void srcml_write_request(std::shared_ptr<ParseRequest> request, TraceLog& log, c
             srcml_archive_write_string(output_archive, s, (int) strlen(s));
 
             // if the string does not end in a newline, output one
-            if (s[strlen(s) - 1] != '\n')
+            if (s[0] == '\0' || s[strlen(s) - 1] != '\n')
                 srcml_archive_write_string(output_archive, "\n", 1);
 
             srcml_transform_free(request->results);
-- 
2.43.0


From 4a558b24856431371742654b660dfa8653f1fda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:30 +0000
Subject: [PATCH 078/115] fix: srcML written to standard output is complete
 when an input has an error

---
 src/client/create_srcml.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/client/create_srcml.cpp b/src/client/create_srcml.cpp
index 4d84840..65c5af1 100644
--- a/src/client/create_srcml.cpp
+++ b/src/client/create_srcml.cpp
@@ -361,6 +361,9 @@ void create_srcml(const srcml_request_t& srcml_request,
         srcml_archive_close(srcml_arch.get());
     }
 
+    // what is not yet written goes to the output before it is closed
+    srcml_arch.reset();
+
     if (destination.fd)
         close(*destination.fd);
 }
-- 
2.43.0


From b6ac0ce174b068a12a8d21ae99c00022fa527448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:30 +0000
Subject: [PATCH 079/115] fix: errors are counted by several threads

---
 src/client/SRCMLStatus.cpp | 2 +-
 src/client/SRCMLStatus.hpp | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/client/SRCMLStatus.cpp b/src/client/SRCMLStatus.cpp
index 6f09eb9..895d25e 100644
--- a/src/client/SRCMLStatus.cpp
+++ b/src/client/SRCMLStatus.cpp
@@ -22,4 +22,4 @@
 
 #include <SRCMLStatus.hpp>
 
-int SRCMLStatus::error_count = 0;
+std::atomic<int> SRCMLStatus::error_count(0);
diff --git a/src/client/SRCMLStatus.hpp b/src/client/SRCMLStatus.hpp
index 4cf3b81..6c291ee 100644
--- a/src/client/SRCMLStatus.hpp
+++ b/src/client/SRCMLStatus.hpp
@@ -23,6 +23,7 @@
 #ifndef SRCML_STATUS_HPP
 #define SRCML_STATUS_HPP
 
+#include <atomic>
 #include <string>
 #include <iostream>
 #include <limits.h>
@@ -88,7 +89,7 @@ public:
 
  private:
   static int opts;
-  static int error_count;
+  static std::atomic<int> error_count;
 };
 
 template <typename T>
-- 
2.43.0


From 708cd06520822fb080e278783ee109232dc650ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:51 +0000
Subject: [PATCH 080/115] fix: namespaces are not registered on the archive
 that units are being written to

---
 src/client/ParseQueue.hpp        | 8 ++++++++
 src/client/srcml_input_srcml.cpp | 3 ++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/client/ParseQueue.hpp b/src/client/ParseQueue.hpp
index 1807baf..ce1f603 100644
--- a/src/client/ParseQueue.hpp
+++ b/src/client/ParseQueue.hpp
@@ -57,6 +57,14 @@ public:
         pool.push(srcml_consume, pvalue, wqueue);
     }
 
+    // if anything has been scheduled, i.e., units may be being written
+    inline bool started() {
+
+        std::unique_lock<std::mutex> l(e);
+
+        return counter > 0;
+    }
+
     inline void wait() {
 
         pool.stop(true);
diff --git a/src/client/srcml_input_srcml.cpp b/src/client/srcml_input_srcml.cpp
index 278d0fe..1d26a20 100644
--- a/src/client/srcml_input_srcml.cpp
+++ b/src/client/srcml_input_srcml.cpp
@@ -65,7 +65,8 @@ int srcml_input_srcml(ParseQueue& queue,
         if (!srcml_archive_is_solitary_unit(srcml_input_archive.get()) && srcml_input.unit == 0 && srcml_archive_is_solitary_unit(srcml_output_archive))
             srcml_archive_disable_solitary_unit(srcml_output_archive);
 
-        size_t nsSize = srcml_archive_get_namespace_size(srcml_input_archive.get());
+        // once units are being written, the archive does not change, and units declare their own namespaces
+        size_t nsSize = queue.started() ? 0 : srcml_archive_get_namespace_size(srcml_input_archive.get());
         for (size_t i = 0; i < nsSize; ++i) {
 
             // ignore srcDiff URL, since it will not be on the output
-- 
2.43.0


From f8b9e9f4ff9465ea9b8a9eeba7df506ff3b0157c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:57 +0000
Subject: [PATCH 081/115] fix: units of an archive are validated against a
 RelaxNG schema independently of each other

---
 src/libsrcml/relaxngTransformation.cpp | 9 +++++----
 src/libsrcml/relaxngTransformation.hpp | 1 -
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/libsrcml/relaxngTransformation.cpp b/src/libsrcml/relaxngTransformation.cpp
index 65d2363..4e659d8 100644
--- a/src/libsrcml/relaxngTransformation.cpp
+++ b/src/libsrcml/relaxngTransformation.cpp
@@ -41,10 +41,6 @@ relaxngTransformation::relaxngTransformation(/* OPTION_TYPE& options, */ xmlDocP
     rng = decltype(rng)(xmlRelaxNGParse(relaxng_parser_ctxt.get()));
     if (rng == nullptr)
         throw std::invalid_argument("Invalid RelaxNG schema");
-
-    rngctx = decltype(rngctx)(xmlRelaxNGNewValidCtxt(rng.get()));
-    if (rngctx == nullptr)
-        throw std::invalid_argument("Invalid RelaxNG schema");
 }
 
 /**
@@ -56,6 +52,11 @@ relaxngTransformation::relaxngTransformation(/* OPTION_TYPE& options, */ xmlDocP
  */
 TransformationResult relaxngTransformation::relaxngTransformation::apply(xmlDocPtr doc, int /* position */) const {
 
+    // a context belongs to a single validation, since units of the same archive can be validated at the same time
+    std::unique_ptr<xmlRelaxNGValidCtxt> rngctx(xmlRelaxNGNewValidCtxt(rng.get()));
+    if (rngctx == nullptr)
+        return TransformationResult::failure();
+
     // 0 means it validated, negative that it could not be determined
     int n = xmlRelaxNGValidateDoc(rngctx.get(), doc);
     if (n < 0)
diff --git a/src/libsrcml/relaxngTransformation.hpp b/src/libsrcml/relaxngTransformation.hpp
index 2a0d665..a95b36b 100644
--- a/src/libsrcml/relaxngTransformation.hpp
+++ b/src/libsrcml/relaxngTransformation.hpp
@@ -63,7 +63,6 @@ public :
     virtual TransformationResult apply(xmlDocPtr doc, int position) const;
 
 private :
-    std::unique_ptr<xmlRelaxNGValidCtxt> rngctx;
     std::unique_ptr<xmlRelaxNGParserCtxt> relaxng_parser_ctxt;
     std::unique_ptr<xmlRelaxNG> rng;
 };
-- 
2.43.0


From acf23f9c23baf995663f0914f5b575f72e697bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:57 +0000
Subject: [PATCH 082/115] fix: an input archive without units does not end the
 client

---
 src/client/srcml_input_srcml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/srcml_input_srcml.cpp b/src/client/srcml_input_srcml.cpp
index 1d26a20..2559a89 100644
--- a/src/client/srcml_input_srcml.cpp
+++ b/src/client/srcml_input_srcml.cpp
@@ -131,7 +131,7 @@ int srcml_input_srcml(ParseQueue& queue,
             break;
     }
 
-    if (!unitFound) {
+    if (!unitFound && srcml_input.unit) {
         SRCMLstatus(ERROR_MSG, "Requested unit %d out of range.", srcml_input.unit);
         exit(1);
     }
-- 
2.43.0


From 90b932f7a2f57428ddaa1a3acb26b01f132ef81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:27 +0000
Subject: [PATCH 083/115] fix: listing the files of a directory does not change
 the current directory where other inputs are opened

---
 src/client/src_input_filesystem.cpp | 56 +++++++++++++++++++++++++++++
 1 file changed, 56 insertions(+)

diff --git a/src/client/src_input_filesystem.cpp b/src/client/src_input_filesystem.cpp
index af4c44a..548d10f 100644
--- a/src/client/src_input_filesystem.cpp
+++ b/src/client/src_input_filesystem.cpp
@@ -28,6 +28,7 @@
 #include <src_input_filesystem.hpp>
 #include <srcml_input_srcml.hpp>
 
+#include <algorithm>
 #include <list>
 #include <deque>
 #include <vector>
@@ -40,6 +41,45 @@
     #include <direct.h>
 #else
     #include <unistd.h>
+    #include <dirent.h>
+    #include <sys/stat.h>
+
+namespace {
+
+    // all regular files below a directory, except for hidden files and files in hidden directories
+    // libarchive would change the current directory of the process, where other threads open files
+    void list_files(const std::string& directory, std::vector<std::string>& files) {
+
+        std::unique_ptr<DIR, int (*)(DIR*)> dir(opendir(directory.c_str()), closedir);
+        if (!dir)
+            return;
+
+        std::vector<std::string> subdirectories;
+        while (const dirent* entry = readdir(dir.get())) {
+
+            if (entry->d_name[0] == '.')
+                continue;
+
+            std::string filename = directory;
+            if (filename.back() != '/')
+                filename += '/';
+            filename += entry->d_name;
+
+            struct stat info;
+            if (lstat(filename.c_str(), &info) != 0)
+                continue;
+
+            if (S_ISDIR(info.st_mode))
+                subdirectories.push_back(filename);
+            else if (S_ISREG(info.st_mode))
+                files.push_back(filename);
+        }
+        dir.reset();
+
+        for (const auto& subdirectory : subdirectories)
+            list_files(subdirectory, files);
+    }
+}
 #endif
 
 int src_input_filesystem(ParseQueue& queue,
@@ -58,6 +98,7 @@ int src_input_filesystem(ParseQueue& queue,
     // get a list of files (including directories) from the current directory
     std::vector<std::string> files;
 
+#ifdef _MSC_BUILD
     // start at the root of the tree
     auto darchive = archive_read_disk_new();
 #if ARCHIVE_VERSION_NUMBER >= 3002003
@@ -99,6 +140,21 @@ int src_input_filesystem(ParseQueue& queue,
     }
     archive_entry_free(entry);
     archive_read_free(darchive);
+#else
+    // without any trailing '/'
+    while (input.size() > 1 && input.back() == '/')
+        input.pop_back();
+
+    // start at the root of the tree
+    if (!input.empty() && (input == "/" || input[input.find_last_of("/") + 1] != '.'))
+        list_files(input, files);
+
+    if (srcml_request.command & SRCML_COMMAND_PARSER_TEST) {
+        files.erase(std::remove_if(files.begin(), files.end(), [](const std::string& filename) {
+            return filename.substr(filename.find_last_of(".") + 1) != "xml";
+        }), files.end());
+    }
+#endif
 
     std::sort(files.begin(), files.end());
 
-- 
2.43.0


From 484d3864bcd7e69e5546aa557044cdd4f6c1a4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:55 +0000
Subject: [PATCH 084/115] fix: entries of a source archive with names that are
 not ASCII, and those after them, are not left out

---
 src/client/src_input_libarchive.cpp | 12 +++++++++++-
 src/client/srcml.cpp                |  4 ++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/client/src_input_libarchive.cpp b/src/client/src_input_libarchive.cpp
index 4e25423..8a1f68a 100644
--- a/src/client/src_input_libarchive.cpp
+++ b/src/client/src_input_libarchive.cpp
@@ -144,8 +144,13 @@ int src_input_libarchive(ParseQueue& queue,
     int status = ARCHIVE_OK;
     while (status == ARCHIVE_OK &&
            (((status = archive_read_next_header(arch.get(), &entry)) == ARCHIVE_OK) ||
+            (status == ARCHIVE_WARN) ||
             (status == ARCHIVE_EOF && !count))) {
 
+        // an entry with a warning, e.g., a name that is not in the encoding of the locale, is usable
+        if (status == ARCHIVE_WARN)
+            status = ARCHIVE_OK;
+
         if (status == ARCHIVE_EOF && getCurlErrors())
             return 0;
 
@@ -163,7 +168,12 @@ int src_input_libarchive(ParseQueue& queue,
             continue;
 
         // default is filename from archive entry (if not empty)
-        std::string filename = status == ARCHIVE_OK ? archive_entry_pathname(entry) : "";
+        std::string filename;
+        if (status == ARCHIVE_OK) {
+            const char* pathname = archive_entry_pathname(entry);
+            if (pathname)
+                filename = pathname;
+        }
 
         // starting in libarchive 3.4 gz compression, although ARCHIVE_FORMAT_RAW, has an
         // entry. For consisten behavior, ignore this for now
diff --git a/src/client/srcml.cpp b/src/client/srcml.cpp
index c85ffd8..5473fcf 100644
--- a/src/client/srcml.cpp
+++ b/src/client/srcml.cpp
@@ -33,6 +33,7 @@
 #include <curl/curl.h>
 #include <boost/version.hpp>
 #include <iostream>
+#include <clocale>
 #include <csignal>
 #include <cmath>
 #include <TraceLog.hpp>
@@ -54,6 +55,9 @@ int main(int argc, char * argv[]) {
 
     Timer runtime = Timer();
 
+    // names in source archives are converted to the encoding of the user
+    setlocale(LC_CTYPE, "");
+
     // parse the command line
     auto srcml_request = parseCLI11(argc, argv);
 
-- 
2.43.0


From 2e5631a7d80b3426c0e4cf30307237d4e3e55e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:38 +0000
Subject: [PATCH 085/115] fix: metadata of an individual unit is that of the
 unit

---
 src/client/srcml_pretty.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/client/srcml_pretty.cpp b/src/client/srcml_pretty.cpp
index deee764..bf0c3f4 100644
--- a/src/client/srcml_pretty.cpp
+++ b/src/client/srcml_pretty.cpp
@@ -234,14 +234,11 @@ void display_template(srcml_archive* srcml_arch, pretty_template_t& output_templ
     std::unique_ptr<srcml_unit> unit;
 
     if (unit_num > 0 && !(xml)) {
-        while (unit_count != unit_num) {
-            srcml_archive_skip_unit(srcml_arch);
+        while (unit_count != unit_num - 1 && srcml_archive_skip_unit(srcml_arch)) {
             ++unit_count;
         }
     }
-    else {
-        unit.reset(srcml_archive_read_unit(srcml_arch));
-    }
+    unit.reset(srcml_archive_read_unit(srcml_arch));
 
     if (output_template.body) {
         while (unit) {
@@ -296,13 +293,14 @@ void display_template(srcml_archive* srcml_arch, pretty_template_t& output_templ
                 pretty_print(*output_template.body, body_params);
 
             body_params.clear();
-            unit.reset(srcml_archive_read_unit(srcml_arch));
 
             // When you want to print only the information from a specific unit
-            if (unit_num > 0 && unit_num == unit_count && !(xml)) {
+            if (unit_num > 0 && !(xml)) {
                 break;
             }
 
+            unit.reset(srcml_archive_read_unit(srcml_arch));
+
             if (unit)
                 ++unit_count;
         }
-- 
2.43.0


From fcd7b1dd972d5be7da98a72f10bc21abfa93c821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:38 +0000
Subject: [PATCH 086/115] fix: units after one whose name gives a warning are
 saved to a source archive

---
 src/client/src_output_libarchive.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/client/src_output_libarchive.cpp b/src/client/src_output_libarchive.cpp
index d66dc7c..906efef 100644
--- a/src/client/src_output_libarchive.cpp
+++ b/src/client/src_output_libarchive.cpp
@@ -75,8 +75,13 @@ void src_output_libarchive(srcml_archive* srcml_arch, archive* src_archive) {
         archive_entry_set_ctime(entry.get(), now, 0);
         archive_entry_set_mtime(entry.get(), now, 0);
 
-        if ((arch_status = archive_write_header(src_archive, entry.get())) != ARCHIVE_OK)
-            break;
+        // an entry that cannot be stored does not affect the others, and one with a warning is stored
+        if ((arch_status = archive_write_header(src_archive, entry.get())) < ARCHIVE_WARN) {
+            SRCMLstatus(WARNING_MSG, "Unable to save " + newfilename + " to source archive");
+            if (arch_status == ARCHIVE_FATAL)
+                break;
+            continue;
+        }
 
         // write the data into the archive
         arch_status = archive_write_data(src_archive, pbuffer.get(), (size_t) buffer_size);
-- 
2.43.0


From e4f7ea7c111c54778fc508504467880be233722d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:00 +0000
Subject: [PATCH 087/115] fix: unit without a language is saved to a source
 archive

---
 src/client/src_output_libarchive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/src_output_libarchive.cpp b/src/client/src_output_libarchive.cpp
index 906efef..7275309 100644
--- a/src/client/src_output_libarchive.cpp
+++ b/src/client/src_output_libarchive.cpp
@@ -45,7 +45,7 @@ void src_output_libarchive(srcml_archive* srcml_arch, archive* src_archive) {
         if (newfilename.empty()) {
             newfilename = "srcml_unit_";
             newfilename += std::to_string(unitcounter);
-            if (language_to_std_extension(srcml_unit_get_language(unit.get())) != "")
+            if (srcml_unit_get_language(unit.get()))
                 newfilename += language_to_std_extension(srcml_unit_get_language(unit.get()));
             SRCMLstatus(WARNING_MSG, "A srcML unit without a filename saved as " + newfilename);
         }
-- 
2.43.0


From fd1bb52f419e65121719f19f56f57cd159c3d720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:05 +0000
Subject: [PATCH 088/115] fix: source encoding and line ends asked for apply to
 source extracted to directories and archives

---
 src/client/create_src.cpp            | 12 ++++++++++--
 src/client/src_output_filesystem.cpp |  6 +++++-
 src/client/src_output_filesystem.hpp |  3 ++-
 src/client/src_output_libarchive.cpp |  6 +++++-
 src/client/src_output_libarchive.hpp |  3 ++-
 5 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/client/create_src.cpp b/src/client/create_src.cpp
index 2573d78..9493a92 100644
--- a/src/client/create_src.cpp
+++ b/src/client/create_src.cpp
@@ -99,7 +99,11 @@ void create_src(const srcml_request_t& srcml_request,
         for (const auto& input_source : input_sources) {
             auto arch(srcml_read_open_internal(input_source, srcml_request.revision));
 
-            src_output_filesystem(arch.get(), destination, log);
+            // set encoding for source output
+            if (srcml_request.src_encoding)
+                srcml_archive_set_src_encoding(arch.get(), srcml_request.src_encoding->c_str());
+
+            src_output_filesystem(arch.get(), destination, srcml_request.eol, log);
         }
 
     } else if (input_sources.size() == 1 && contains<int>(destination) &&
@@ -225,8 +229,12 @@ void create_src(const srcml_request_t& srcml_request,
 
             auto arch(srcml_read_open_internal(input_source, srcml_request.revision));
 
+            // set encoding for source output
+            if (srcml_request.src_encoding)
+                srcml_archive_set_src_encoding(arch.get(), srcml_request.src_encoding->c_str());
+
             // extract this srcml archive to the source archive
-            src_output_libarchive(arch.get(), ar.get());
+            src_output_libarchive(arch.get(), ar.get(), srcml_request.eol);
         }
     }
 }
diff --git a/src/client/src_output_filesystem.cpp b/src/client/src_output_filesystem.cpp
index b85de8b..e06de31 100644
--- a/src/client/src_output_filesystem.cpp
+++ b/src/client/src_output_filesystem.cpp
@@ -26,7 +26,7 @@
 #include <srcml_utilities.hpp>
 #include <mkDir.hpp>
 
-void src_output_filesystem(srcml_archive* srcml_arch, const std::string& output_dir, TraceLog& log) {
+void src_output_filesystem(srcml_archive* srcml_arch, const std::string& output_dir, const boost::optional<int>& eol, TraceLog& log) {
 
     // construct the relative directory
     std::string prefix = output_dir;
@@ -60,6 +60,10 @@ void src_output_filesystem(srcml_archive* srcml_arch, const std::string& output_
         // unparse directory to filename
         log << ++count << fullfilename;
 
+        // if requested eol, then use that
+        if (eol)
+            srcml_unit_set_eol(unit.get(), *eol);
+
         srcml_unit_unparse_filename(unit.get(), fullfilename.c_str());
     }
 }
diff --git a/src/client/src_output_filesystem.hpp b/src/client/src_output_filesystem.hpp
index e3f44c6..7256d86 100644
--- a/src/client/src_output_filesystem.hpp
+++ b/src/client/src_output_filesystem.hpp
@@ -26,7 +26,8 @@
 #include <srcml.h>
 #include <string>
 #include <TraceLog.hpp>
+#include <boost/optional.hpp>
 
-void src_output_filesystem(srcml_archive* srcml_arch, const std::string& output_dir, TraceLog& log);
+void src_output_filesystem(srcml_archive* srcml_arch, const std::string& output_dir, const boost::optional<int>& eol, TraceLog& log);
 
 #endif
diff --git a/src/client/src_output_libarchive.cpp b/src/client/src_output_libarchive.cpp
index 7275309..182ff83 100644
--- a/src/client/src_output_libarchive.cpp
+++ b/src/client/src_output_libarchive.cpp
@@ -32,7 +32,7 @@
 #include <libarchive_utilities.hpp>
 #include <srcml_utilities.hpp>
 
-void src_output_libarchive(srcml_archive* srcml_arch, archive* src_archive) {
+void src_output_libarchive(srcml_archive* srcml_arch, archive* src_archive, const boost::optional<int>& eol) {
 
     ssize_t arch_status = ARCHIVE_OK;
     int unitcounter = 0;
@@ -40,6 +40,10 @@ void src_output_libarchive(srcml_archive* srcml_arch, archive* src_archive) {
 
         ++unitcounter;
 
+        // if requested eol, then use that
+        if (eol)
+            srcml_unit_set_eol(unit.get(), *eol);
+
         // have to make sure we have a valid filename
         std::string newfilename = srcml_unit_get_filename(unit.get()) ? srcml_unit_get_filename(unit.get()) : "";
         if (newfilename.empty()) {
diff --git a/src/client/src_output_libarchive.hpp b/src/client/src_output_libarchive.hpp
index e9c1397..be2e2fa 100644
--- a/src/client/src_output_libarchive.hpp
+++ b/src/client/src_output_libarchive.hpp
@@ -25,7 +25,8 @@
 
 #include <archive.h>
 #include <srcml.h>
+#include <boost/optional.hpp>
 
-void src_output_libarchive(srcml_archive* srcml_arch, archive* ar);
+void src_output_libarchive(srcml_archive* srcml_arch, archive* ar, const boost::optional<int>& eol);
 
 #endif
-- 
2.43.0


From b30562b431431e5666fde415270dff48380e8637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:04 +0000
Subject: [PATCH 089/115] fix: source and srcML are written to the file named,
 where the name has a %

---
 src/libsrcml/libxml2_utilities.hpp | 31 ++++++++++++++++++++++++++++++
 src/libsrcml/srcml_archive.cpp     |  2 +-
 src/libsrcml/srcml_unit.cpp        |  2 +-
 3 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/libsrcml/libxml2_utilities.hpp b/src/libsrcml/libxml2_utilities.hpp
index 2488051..ea1bfed 100644
--- a/src/libsrcml/libxml2_utilities.hpp
+++ b/src/libsrcml/libxml2_utilities.hpp
@@ -29,6 +29,8 @@
 #include <algorithm>
 #include <memory>
 #include <cerrno>
+#include <cstdio>
+#include <cstring>
 #include <cstddef>
 #ifdef _MSC_BUILD
 #include <io.h>
@@ -124,4 +126,33 @@ inline xmlOutputBufferPtr createOutputBufferFd(int fd, xmlCharEncodingHandlerPtr
     return output;
 }
 
+/**
+ * createOutputBufferFilename
+ * @param filename name of the file to write to
+ * @param handler encoding of the output, or NULL
+ *
+ * libxml2 takes a filename as a URI, i.e., "a%41" is the file "aA". Unless
+ * it is a file: URI, the filename is the name of the file.
+ *
+ * @returns output buffer for the file, or NULL if the file cannot be opened
+ */
+inline xmlOutputBufferPtr createOutputBufferFilename(const char* filename, xmlCharEncodingHandlerPtr handler) {
+
+    if (!strchr(filename, '%') || strncmp(filename, "file:", 5) == 0)
+        return xmlOutputBufferCreateFilename(filename, handler, 0);
+
+    FILE* file = fopen(filename, "wb");
+    if (!file)
+        return nullptr;
+
+    xmlOutputBufferPtr output = xmlOutputBufferCreateFile(file, handler);
+    if (!output) {
+        fclose(file);
+        return nullptr;
+    }
+    output->closecallback = xmlFileClose;
+
+    return output;
+}
+
 #endif
diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index 97a7e2a..0178ad2 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -926,7 +926,7 @@ int srcml_archive_write_open_filename(struct srcml_archive* archive, const char*
     if (archive->type != SRCML_ARCHIVE_INVALID)
         return SRCML_STATUS_INVALID_IO_OPERATION;
 
-    archive->output_buffer = xmlOutputBufferCreateFilename(srcml_filename, 0, 0);
+    archive->output_buffer = createOutputBufferFilename(srcml_filename, 0);
     if (!archive->output_buffer)
         return SRCML_STATUS_IO_ERROR;
 
diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index 68c21de..6c85278 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -799,7 +799,7 @@ int srcml_unit_unparse_filename(struct srcml_unit* unit, const char* src_filenam
 
     return srcml_unit_unparse_internal(unit, [src_filename](xmlCharEncodingHandlerPtr handler) {
 
-        return xmlOutputBufferCreateFilename(src_filename, handler, 0);
+        return createOutputBufferFilename(src_filename, handler);
     });
 }
 
-- 
2.43.0


From 76ff8d0c39ff89b8b59b50eb7e58c2f6890edd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:43 +0000
Subject: [PATCH 090/115] fix: client does not end by SIGPIPE when only part of
 a compressed srcML file is needed

---
 src/client/srcml_execute.cpp |  3 +++
 src/client/srcml_pipe.cpp    |  3 +++
 src/client/srcml_pipe.hpp    | 37 ++++++++++++++++++++++++++++++++++++
 3 files changed, 43 insertions(+)

diff --git a/src/client/srcml_execute.cpp b/src/client/srcml_execute.cpp
index 3e912b8..a5e49a4 100644
--- a/src/client/srcml_execute.cpp
+++ b/src/client/srcml_execute.cpp
@@ -65,6 +65,9 @@ void srcml_execute(const srcml_request_t& srcml_request,
 #endif
         }
 
+        // the following step may not need all of the output of this step
+        PipeSignalBlock block(!last);
+
         /* run this step in the sequence */
         pipethreads.push_back(std::thread(
             command,
diff --git a/src/client/srcml_pipe.cpp b/src/client/srcml_pipe.cpp
index 7a54a18..1379c31 100644
--- a/src/client/srcml_pipe.cpp
+++ b/src/client/srcml_pipe.cpp
@@ -52,6 +52,9 @@ void srcml_pipe(srcml_input_src& input, srcml_pipe_process process, srcml_reques
     fds[0] = _open_osfhandle((intptr_t)read_pipe, _O_RDONLY);
 #endif
 
+    // the reader of the pipe may not need all of it
+    PipeSignalBlock block(true);
+
     // create a single thread to prefix decompression
     lthreads.push_back(new std::thread(
             process,
diff --git a/src/client/srcml_pipe.hpp b/src/client/srcml_pipe.hpp
index 92f5d38..9fcd801 100644
--- a/src/client/srcml_pipe.hpp
+++ b/src/client/srcml_pipe.hpp
@@ -26,6 +26,43 @@
 #include <srcml_input_src.hpp>
 #include <srcml_cli.hpp>
 
+#if !defined(_MSC_BUILD) && !defined(__MINGW32__)
+#include <csignal>
+#endif
+
+/**
+ * PipeSignalBlock
+ *
+ * Threads started while this exists do not end the program when the reader
+ * of their pipe is done before them. Their write fails instead.
+ */
+class PipeSignalBlock {
+public:
+#if !defined(_MSC_BUILD) && !defined(__MINGW32__)
+    explicit PipeSignalBlock(bool block) {
+
+        sigset_t signals;
+        sigemptyset(&signals);
+        if (block)
+            sigaddset(&signals, SIGPIPE);
+        pthread_sigmask(SIG_BLOCK, &signals, &previous);
+    }
+
+    ~PipeSignalBlock() {
+
+        pthread_sigmask(SIG_SETMASK, &previous, nullptr);
+    }
+
+    PipeSignalBlock(const PipeSignalBlock&) = delete;
+    PipeSignalBlock& operator=(const PipeSignalBlock&) = delete;
+
+private:
+    sigset_t previous;
+#else
+    explicit PipeSignalBlock(bool) {}
+#endif
+};
+
 // has to be a typedef for older gcc compilers
 typedef void (*srcml_pipe_process)(const srcml_request_t&, const srcml_input_t&, const srcml_output_dest&);
 
-- 
2.43.0


From 5cf9691796e8826c2ed7a94912b25be8d586464c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:49 +0000
Subject: [PATCH 091/115] fix: separator of units is in the compressed source
 output

---
 src/client/create_src.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/create_src.cpp b/src/client/create_src.cpp
index 9493a92..9c97548 100644
--- a/src/client/create_src.cpp
+++ b/src/client/create_src.cpp
@@ -142,7 +142,7 @@ void create_src(const srcml_request_t& srcml_request,
 
             // null separator before every unit (except the first)
             if (count) {
-                if (write(1, "", 1) == -1) {
+                if (write(*destination.fd, "", 1) == -1) {
                     SRCMLstatus(ERROR_MSG, "Unable to write to stdout");
                     break;
                 }
-- 
2.43.0


From 461837517ead10dc5f3cf59e7fc897e7c26c7cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:44 +0000
Subject: [PATCH 092/115] fix: line ends set with srcml_set_eol() apply to
 srcml()

---
 src/libsrcml/libsrcml.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libsrcml/libsrcml.cpp b/src/libsrcml/libsrcml.cpp
index 9f67eb0..8469c52 100644
--- a/src/libsrcml/libsrcml.cpp
+++ b/src/libsrcml/libsrcml.cpp
@@ -244,6 +244,11 @@ int srcml(const char* input_filename, const char* output_filename) {
         if (!unit)
             return SRCML_STATUS_INVALID_INPUT;
 
+        // eol possibly set by convenience function
+        status = srcml_unit_set_eol(unit.get(), srcml_unit_get_eol(&global_unit));
+        if (status != SRCML_STATUS_OK)
+            return status;
+
         status = srcml_unit_unparse_filename(unit.get(), output_filename);
         if (status != SRCML_STATUS_OK)
             return status;
-- 
2.43.0


From 851835df0de4d0304ae226fb3556e3927ded53ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:04 +0000
Subject: [PATCH 093/115] fix: a unit written to another archive declares the
 namespaces that archive does not

---
 src/libsrcml/srcml_translator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libsrcml/srcml_translator.cpp b/src/libsrcml/srcml_translator.cpp
index c6f4920..f4e9423 100644
--- a/src/libsrcml/srcml_translator.cpp
+++ b/src/libsrcml/srcml_translator.cpp
@@ -256,7 +256,7 @@ bool srcml_translator::add_unit(const srcml_unit* unit) {
                 continue;
             }
 
-            if (unit->archive->type != SRCML_ARCHIVE_READ)
+            if (unit->archive->type != SRCML_ARCHIVE_READ && unit->archive->translator == this)
                 continue;
 
             // cpp and openmp are only declared where used
-- 
2.43.0


From b062bcb8a77711a0f4c4cd90b8f56e4c0b7d1e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:17 +0000
Subject: [PATCH 094/115] fix: lines of CDATA count as lines of code of a unit
 read

---
 src/libsrcml/sax2_srcsax_handler.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index c5cd08d..c06b054 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -924,6 +924,8 @@ void cdata_block(void* ctx, const xmlChar* value, int len) {
         // CDATA is character data
         state->unitsrc.append((const char*) value, len);
 
+        state->loc += (int) std::count((const char*) value, (const char*) value + len, '\n');
+
         state->base = ctxt->input->cur;
     }
 
-- 
2.43.0


From 176528d53b146a4385ae1e930e9ed4a58204041f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:04 +0000
Subject: [PATCH 095/115] fix: language of a file whose given filename has no
 extension

---
 src/client/src_input_file.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/client/src_input_file.cpp b/src/client/src_input_file.cpp
index 2134ea8..fca025a 100644
--- a/src/client/src_input_file.cpp
+++ b/src/client/src_input_file.cpp
@@ -55,6 +55,11 @@ int src_input_file(ParseQueue& queue,
         if (const char* l = srcml_archive_check_extension(srcml_arch, prequest->filename->c_str()))
             prequest->language = l;
 
+    // when the filename is given, it may not have an extension
+    if (prequest->language.empty())
+        if (const char* l = srcml_archive_check_extension(srcml_arch, input.resource.c_str()))
+            prequest->language = l;
+
     prequest->disk_filename = input.resource;
 
     // Hand request off to the processing queue
-- 
2.43.0


From f840144693c8eac35de956d20ddc5c5c655d2620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:20 +0000
Subject: [PATCH 096/115] fix: timestamp of files that are not part of a source
 archive

---
 src/client/src_input_file.cpp       |  3 +++
 src/client/src_input_libarchive.cpp | 33 ++++++++++++++++++++++-------
 src/client/src_input_libarchive.hpp |  3 +++
 3 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/src/client/src_input_file.cpp b/src/client/src_input_file.cpp
index fca025a..4a4ede9 100644
--- a/src/client/src_input_file.cpp
+++ b/src/client/src_input_file.cpp
@@ -60,6 +60,9 @@ int src_input_file(ParseQueue& queue,
         if (const char* l = srcml_archive_check_extension(srcml_arch, input.resource.c_str()))
             prequest->language = l;
 
+    if (option(SRCML_COMMAND_TIMESTAMP))
+        prequest->time_stamp = src_input_timestamp(input);
+
     prequest->disk_filename = input.resource;
 
     // Hand request off to the processing queue
diff --git a/src/client/src_input_libarchive.cpp b/src/client/src_input_libarchive.cpp
index 8a1f68a..605afe5 100644
--- a/src/client/src_input_libarchive.cpp
+++ b/src/client/src_input_libarchive.cpp
@@ -35,8 +35,28 @@ typedef SSIZE_T ssize_t;
 #include <input_curl.hpp>
 #include <SRCMLStatus.hpp>
 #include <cstring>
+#include <ctime>
+#include <sys/stat.h>
 #include <libarchive_utilities.hpp>
 
+// standard ctime output without the newline
+static std::string timestamp(time_t time) {
+
+    std::string s = ctime(&time);
+    s.pop_back();
+
+    return s;
+}
+
+boost::optional<std::string> src_input_timestamp(const srcml_input_src& input_file) {
+
+    struct stat status;
+    if (input_file.protocol != "file" || stat(input_file.resource.c_str(), &status) != 0)
+        return boost::none;
+
+    return timestamp(status.st_mtime);
+}
+
 archive* libarchive_input_file(const srcml_input_src& input_file) {
 
     std::unique_ptr<archive> arch(archive_read_new());
@@ -253,14 +273,11 @@ int src_input_libarchive(ParseQueue& queue,
 
         if (option(SRCML_COMMAND_TIMESTAMP)) {
 
-            //Long time provided by libarchive needs to be time_t
-            time_t mod_time(archive_entry_mtime(entry));
-
-            //Standard ctime output and prune '/n' from string
-            char* c_time = ctime(&mod_time);
-            c_time[strlen(c_time) - 1] = 0;
-
-            prequest->time_stamp = c_time;
+            // entries that are not part of a source archive may not have a time
+            if (archive_entry_mtime_is_set(entry))
+                prequest->time_stamp = timestamp(archive_entry_mtime(entry));
+            else
+                prequest->time_stamp = src_input_timestamp(input_file);
         }
 
         // fill up the parse request buffer
diff --git a/src/client/src_input_libarchive.hpp b/src/client/src_input_libarchive.hpp
index d22e53e..d379932 100644
--- a/src/client/src_input_libarchive.hpp
+++ b/src/client/src_input_libarchive.hpp
@@ -34,6 +34,9 @@
 
 archive* libarchive_input_file(const srcml_input_src& input_file);
 
+// timestamp of a local file, none if it does not have one
+boost::optional<std::string> src_input_timestamp(const srcml_input_src& input_file);
+
 int src_input_libarchive(ParseQueue& queue,
                           srcml_archive* srcml_arch,
                           const srcml_request_t& srcml_request,
-- 
2.43.0


From 6a4d87063432a0d452c1d456f0c07ab98ebf3f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:20 +0000
Subject: [PATCH 097/115] fix: text of the text option may end with a backslash

---
 src/client/src_input_text.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/client/src_input_text.cpp b/src/client/src_input_text.cpp
index 97f7a57..4ecfc70 100644
--- a/src/client/src_input_text.cpp
+++ b/src/client/src_input_text.cpp
@@ -98,6 +98,14 @@ int src_input_text(ParseQueue& queue,
 
                 // append the special character
                 ++epos;
+
+                // text ends with the backslash
+                if (*epos == '\0') {
+                    prequest->buffer.push_back('\\');
+                    ptext = epos;
+                    break;
+                }
+
                 switch (*epos) {
                 case 'n':
                     prequest->buffer.push_back('\n');
-- 
2.43.0


From d4a7cf5cb81c05f5bb49eff3c5685cea85a4e68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:20 +0000
Subject: [PATCH 098/115] fix: filename given for a single file whose results
 are an archive

---
 src/client/src_input_libarchive.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client/src_input_libarchive.cpp b/src/client/src_input_libarchive.cpp
index 605afe5..1cabb9c 100644
--- a/src/client/src_input_libarchive.cpp
+++ b/src/client/src_input_libarchive.cpp
@@ -227,7 +227,8 @@ int src_input_libarchive(ParseQueue& queue,
             }
         }
 
-        if (srcml_request.att_filename && srcml_archive_is_solitary_unit(srcml_arch))
+        // the given filename is for a single file, even if the output is an archive, e.g., of XPath results
+        if (srcml_request.att_filename && (archive_format(arch.get()) == ARCHIVE_FORMAT_RAW || archive_format(arch.get()) == ARCHIVE_FORMAT_EMPTY))
             filename = *srcml_request.att_filename;
 
         // language may have been explicitly set
-- 
2.43.0


From 4d0a77fecc4b938fb270004560db7c3d5180ea5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:30 +0000
Subject: [PATCH 099/115] fix: language option for a compressed file with a
 given filename

---
 src/client/src_input_libarchive.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client/src_input_libarchive.cpp b/src/client/src_input_libarchive.cpp
index 1cabb9c..686aa56 100644
--- a/src/client/src_input_libarchive.cpp
+++ b/src/client/src_input_libarchive.cpp
@@ -237,7 +237,8 @@ int src_input_libarchive(ParseQueue& queue,
         // user specified a language, and is a file, text, or stdin
         // user specified a language, and is not part of a solitary unit, and the file has a source-code extension
         if (srcml_request.att_language && ((input_file.protocol == "text" || input_file.protocol == "stdin")
-             || srcml_archive_check_extension(srcml_arch, filename.c_str())))
+             || srcml_archive_check_extension(srcml_arch, filename.c_str())
+             || srcml_archive_check_extension(srcml_arch, input_file.extension.c_str())))
             language = *srcml_request.att_language;
 
         // if not explicitly set, language comes from extension
-- 
2.43.0


From f4651092579308bf447b5bb7fb3d6978f97c597c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:55 +0000
Subject: [PATCH 100/115] fix: quotes in the value of the XSLT parameter option

---
 src/client/create_srcml.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/client/create_srcml.cpp b/src/client/create_srcml.cpp
index 65c5af1..f77d2cd 100644
--- a/src/client/create_srcml.cpp
+++ b/src/client/create_srcml.cpp
@@ -287,12 +287,12 @@ void create_srcml(const srcml_request_t& srcml_request,
             auto pos = resource.find('=');
             std::string name = resource.substr(0, pos);
             std::string value = resource.substr(pos + 1);
-            if (value[0] != '"') {
-                value.insert(0, 1, '"');
-                value.append("\"");
-            }
 
-            srcml_append_transform_param(srcml_arch.get(), name.c_str(), value.c_str());
+            // quotes around the entire value are not part of it
+            if (value.size() > 1 && value.front() == '"' && value.back() == '"')
+                value = value.substr(1, value.size() - 2);
+
+            srcml_append_transform_stringparam(srcml_arch.get(), name.c_str(), value.c_str());
 
         } else if (protocol == "relaxng") {
             if (apply_relaxng(srcml_arch.get(), resource) != SRCML_STATUS_OK) {
-- 
2.43.0


From afb21a3887c04b7388b6efe51e1da63dbf54c0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:48 +0000
Subject: [PATCH 101/115] fix: URL of an input archive whose name starts with a
 dot

---
 src/client/create_srcml.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client/create_srcml.cpp b/src/client/create_srcml.cpp
index f77d2cd..f9c57e0 100644
--- a/src/client/create_srcml.cpp
+++ b/src/client/create_srcml.cpp
@@ -153,7 +153,8 @@ void create_srcml(const srcml_request_t& srcml_request,
 
         // Cleanup filename
         std::string url_name = src_prefix_resource(input_sources[0].filename);
-        url_name = url_name.substr(url_name.find_first_not_of("./"));
+        for (size_t pos; (pos = url_name.find('/')) != std::string::npos && url_name.find_first_not_of('.') >= pos; )
+            url_name.erase(0, pos + 1);
 
         if (srcml_archive_set_url(srcml_arch.get(), url_name.c_str()) != SRCML_STATUS_OK) {
             SRCMLstatus(ERROR_MSG, "srcml: invalid url '%s' for srcml archive", url_name);
-- 
2.43.0


From 167ac17d9b47d5060fa57accccf25aa9fd648364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:53 +0000
Subject: [PATCH 102/115] fix: empty text of the text option is not read before
 its start

---
 src/client/srcml_input_src.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/srcml_input_src.cpp b/src/client/srcml_input_src.cpp
index 5f6ff3e..4c8f204 100644
--- a/src/client/srcml_input_src.cpp
+++ b/src/client/srcml_input_src.cpp
@@ -74,7 +74,7 @@ srcml_input_src::srcml_input_src(const std::string& other) : arch(0), state(INDE
         isdirectory = exists && S_ISDIR(s.st_mode);
     }
 
-    isdirectoryform = resource.back() == '/';
+    isdirectoryform = !resource.empty() && resource.back() == '/';
 
     if (!isdirectory && protocol != "text") {
 
-- 
2.43.0


From 9c93d94801bd5ad64b856bfc885d5d1d4ca63176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:10 +0000
Subject: [PATCH 103/115] fix: input file whose name contains a question mark

---
 src/client/srcml_input_src.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/srcml_input_src.cpp b/src/client/srcml_input_src.cpp
index 4c8f204..74a3037 100644
--- a/src/client/srcml_input_src.cpp
+++ b/src/client/srcml_input_src.cpp
@@ -58,8 +58,8 @@ srcml_input_src::srcml_input_src(const std::string& other) : arch(0), state(INDE
     // filename into protocol and resource
     std::tie(protocol, resource) = src_prefix_split_uri(filename);
 
-    // remove any query string
-    if (protocol != "text" && protocol != "filelist" && protocol != "stdin") {
+    // remove any query string from a URL
+    if (protocol != "file" && protocol != "text" && protocol != "filelist" && protocol != "stdin") {
         size_t query_pos = resource.find('?');
         if (query_pos != std::string::npos) {
             resource = resource.substr(0, query_pos);
-- 
2.43.0


From 42c458cffc616e28d97c63f713e0e8beb39b6491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:57:36 +0000
Subject: [PATCH 104/115] fix: else after a loop whose body ends with an else
 belongs to the if around the loop

---
 src/parser/srcMLParser.g | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index 890233a..e9623d4 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -3676,6 +3676,9 @@ else_handling[] { ENTRY_DEBUG } :
 
                             endMode();
 
+                            // statement without a block may be the body of other statements, which also end
+                            if (!inMode(MODE_THEN) && !inMode(MODE_IF) && !inMode(MODE_ELSE))
+                                endDownToModeSet(MODE_TOP | MODE_THEN | MODE_IF | MODE_ELSE | MODE_SWITCH);
                         }
 
                     }
-- 
2.43.0


From 35015f16c09683da09e0907b960f803486846f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:02:28 +0000
Subject: [PATCH 105/115] fix: else after a try that is the body of an if
 belongs to the if

---
 src/parser/srcMLParser.g | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index e9623d4..dfa79dc 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -3644,7 +3644,12 @@ else_handling[] { ENTRY_DEBUG } :
             bool restoftry = LA(1) == CATCH || LA(1) == CXX_CATCH || LA(1) == FINALLY;
             if (intry && !restoftry) {
                 endMode(MODE_TRY);
-                endDownToMode(MODE_TOP);
+
+                // try may be the body of an if that the else belongs to
+                if (LA(1) == ELSE)
+                    endDownToModeSet(MODE_TOP | MODE_IF | MODE_ELSE);
+                else
+                    endDownToMode(MODE_TOP);
             }
 
             // handle parts of if
-- 
2.43.0


From 7d83542f1cf2771023e8c0812cb686e999dd6560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:12:48 +0000
Subject: [PATCH 106/115] fix: initializer list in the body of a lambda

---
 src/parser/srcMLParser.g | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index dfa79dc..770efab 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -836,7 +836,7 @@ start[] { ++start_count; ENTRY_DEBUG_START ENTRY_DEBUG } :
         { ((inTransparentMode(MODE_CONDITION) ||
             (!inMode(MODE_EXPRESSION) && !inMode(MODE_EXPRESSION_BLOCK | MODE_EXPECT))) 
         && !inTransparentMode(MODE_CALL | MODE_INTERNAL_END_PAREN)
-        && (!inLanguage(LANGUAGE_CXX) || !inTransparentMode(MODE_INIT | MODE_EXPECT))) || inTransparentMode(MODE_ANONYMOUS) }? lcurly |
+        && (!inLanguage(LANGUAGE_CXX) || !inTransparentMode(MODE_INIT | MODE_EXPECT))) || (inTransparentMode(MODE_ANONYMOUS) && !inMode(MODE_EXPRESSION)) }? lcurly |
 
         { inMode(MODE_ARGUMENT_LIST) }? call_argument_list |
 
-- 
2.43.0


From 601c0eb5a1da6515b926e6eccfe302dcbbacdf9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:56 +0000
Subject: [PATCH 107/115] fix: comma of calls in the control of loops in C#
 lambdas

---
 src/parser/srcMLParser.g | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index 770efab..49e89c5 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -3962,6 +3962,7 @@ bar[] { LightweightElement element(this); ENTRY_DEBUG } :
 ;
 
 // handle comma
+// The comma in the control of a foreach is before the range, except for C# where only lambdas end at a comma
 comma[] { bool markup_comma = true; ENTRY_DEBUG } :
         {
             // comma ends the current item in a list
@@ -3976,19 +3977,19 @@ comma[] { bool markup_comma = true; ENTRY_DEBUG } :
             if (inMode(MODE_IN_INIT))
                 endMode(MODE_IN_INIT);
 
-            if (inMode(MODE_LOCAL | MODE_VARIABLE_NAME) && !inTransparentMode(MODE_CONTROL_CONDITION | MODE_END_AT_COMMA))
+            if (inMode(MODE_LOCAL | MODE_VARIABLE_NAME) && !(!inLanguage(LANGUAGE_CSHARP) && inTransparentMode(MODE_CONTROL_CONDITION | MODE_END_AT_COMMA)))
                 endMode();
 
             if (inMode(MODE_INIT | MODE_EXPECT | MODE_ENUM))
                 endDownToModeSet(MODE_ENUM | MODE_TOP);
 
-            if (inMode(MODE_INIT | MODE_VARIABLE_NAME | MODE_LIST) || inTransparentMode(MODE_CONTROL_CONDITION | MODE_END_AT_COMMA))
+            if (inMode(MODE_INIT | MODE_VARIABLE_NAME | MODE_LIST) || (!inLanguage(LANGUAGE_CSHARP) && inTransparentMode(MODE_CONTROL_CONDITION | MODE_END_AT_COMMA)))
                 markup_comma = false;
 
         }
         comma_marked[markup_comma]
         {
-            if (inTransparentMode(MODE_CONTROL_CONDITION | MODE_END_AT_COMMA)) {
+            if (!inLanguage(LANGUAGE_CSHARP) && inTransparentMode(MODE_CONTROL_CONDITION | MODE_END_AT_COMMA)) {
 
                 startNewMode(MODE_LIST | MODE_IN_INIT | MODE_EXPRESSION | MODE_EXPECT);
                 startNoSkipElement(SDECLARATION_RANGE);
-- 
2.43.0


From 1b122894dcd9b25d842e756d4aa9e6ca484c0bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:17:02 +0000
Subject: [PATCH 108/115] fix: declarations in the body of a C++ lambda that is
 an argument

---
 src/parser/srcMLParser.g | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index 49e89c5..78801d1 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -1398,7 +1398,7 @@ function_type[int type_count] { bool is_compound = false; ENTRY_DEBUG } :
         { 
 
             decTypeCount();
-            if (inTransparentMode(MODE_ARGUMENT) && inLanguage(LANGUAGE_CXX))
+            if (inLanguage(LANGUAGE_CXX) && inTransparentMode(MODE_ARGUMENT) && (getFirstMode(MODE_ARGUMENT | MODE_BLOCK) & MODE_ARGUMENT) != 0)
                 return;
         }
 
@@ -4613,7 +4613,7 @@ marker[] { CompleteElement element(this); startNewMode(MODE_LOCAL); startElement
 update_typecount[srcMLState::MODE_TYPE mode] {} :
         {
             decTypeCount();
-            if (inTransparentMode(MODE_ARGUMENT) && inLanguage(LANGUAGE_CXX))
+            if (inLanguage(LANGUAGE_CXX) && inTransparentMode(MODE_ARGUMENT) && (getFirstMode(MODE_ARGUMENT | MODE_BLOCK) & MODE_ARGUMENT) != 0)
                 return;
 
             if (getTypeCount() <= 0) {
@@ -7266,7 +7266,7 @@ variable_declaration_type[int type_count] {  bool is_compound = false; ENTRY_DEB
     {
         if (type_count == 0) {
 
-            if (inTransparentMode(MODE_ARGUMENT) && inLanguage(LANGUAGE_CXX))
+            if (inLanguage(LANGUAGE_CXX) && inTransparentMode(MODE_ARGUMENT) && (getFirstMode(MODE_ARGUMENT | MODE_BLOCK) & MODE_ARGUMENT) != 0)
                 return;
 
             setMode(MODE_VARIABLE_NAME | MODE_INIT);
-- 
2.43.0


From f764f1458383cb4757ab7b6f58283ba898f0ba63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:21:20 +0000
Subject: [PATCH 109/115] fix: parameters and declarations of a lambda in a
 condition

---
 src/parser/srcMLParser.g | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index 78801d1..5670320 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -4133,7 +4133,8 @@ pattern_check[STMT_TYPE& type, int& token, int& type_count, int& after_token, bo
 
     }
 
-    if (type == VARIABLE && inTransparentMode(MODE_CONDITION) && LA(1) != EQUAL)
+    if (type == VARIABLE && !inparam && inTransparentMode(MODE_CONDITION)
+        && (getFirstMode(MODE_CONDITION | MODE_BLOCK) & MODE_BLOCK) == 0 && LA(1) != EQUAL)
         type = NONE;
 
     if (type == NONE && (sawtemplate || (sawcontextual && type_count > 0))
-- 
2.43.0


From f2e98863a2e02e7fa5edb9a1fd749c12b746258a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:21:56 +0000
Subject: [PATCH 110/115] fix: blocks in the body of a lambda in a condition

---
 src/parser/srcMLParser.g | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index 5670320..b490b89 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -3381,7 +3381,7 @@ lcurly[bool content = true] { ENTRY_DEBUG } :
                 content = false;
 
             // special end for conditions
-            if (inTransparentMode(MODE_CONDITION) && !inMode(MODE_ANONYMOUS)) {
+            if (inTransparentMode(MODE_CONDITION) && !inMode(MODE_ANONYMOUS) && (getFirstMode(MODE_CONDITION | MODE_BLOCK) & MODE_CONDITION) != 0) {
                 endDownToMode(MODE_CONDITION);
                 endMode(MODE_CONDITION);
             }
-- 
2.43.0


From 28ec0fae56a9a5acd3e9ba00200626b9134a7faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:22:40 +0000
Subject: [PATCH 111/115] fix: body of an anonymous class in a condition

---
 src/parser/srcMLParser.g | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index b490b89..d8395c7 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -3381,7 +3381,7 @@ lcurly[bool content = true] { ENTRY_DEBUG } :
                 content = false;
 
             // special end for conditions
-            if (inTransparentMode(MODE_CONDITION) && !inMode(MODE_ANONYMOUS) && (getFirstMode(MODE_CONDITION | MODE_BLOCK) & MODE_CONDITION) != 0) {
+            if (inTransparentMode(MODE_CONDITION) && !inMode(MODE_ANONYMOUS) && (getFirstMode(MODE_CONDITION | MODE_BLOCK | MODE_CLASS) & MODE_CONDITION) != 0) {
                 endDownToMode(MODE_CONDITION);
                 endMode(MODE_CONDITION);
             }
-- 
2.43.0


From 26561df56ae7e5847b8b12186789f64168c46e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:25:25 +0000
Subject: [PATCH 112/115] fix: statement after a condition that ends with an
 expression lambda

---
 src/parser/srcMLParser.g | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index d8395c7..592eb7c 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -5207,8 +5207,10 @@ complete_objective_c_call[] { CompleteElement element(this); int bracket_count =
 ;
 
 // match a complete expression no stream
-complete_expression[] { CompleteElement element(this); ENTRY_DEBUG } :
+complete_expression[] { CompleteElement element(this); int start_size = 0; ENTRY_DEBUG } :
         {
+            start_size = size();
+
             // start a mode to end at right bracket with expressions inside
             startNewMode(MODE_TOP | MODE_EXPECT | MODE_EXPRESSION);
 
@@ -5216,19 +5218,20 @@ complete_expression[] { CompleteElement element(this); ENTRY_DEBUG } :
         (options { greedy = true; } :
 
             // commas as in a list
-            { (inTransparentMode(MODE_END_ONLY_AT_RPAREN) && (getFirstMode(MODE_END_ONLY_AT_RPAREN | MODE_END_AT_COMMA)& MODE_END_AT_COMMA) == 0) || !inTransparentMode(MODE_END_AT_COMMA) }?
+            { size() >= start_size && ((inTransparentMode(MODE_END_ONLY_AT_RPAREN) && (getFirstMode(MODE_END_ONLY_AT_RPAREN | MODE_END_AT_COMMA)& MODE_END_AT_COMMA) == 0) || !inTransparentMode(MODE_END_AT_COMMA)) }?
             comma |
 
             // right parentheses, unless we are in a pair of parentheses in an expression
-            { !inTransparentMode(MODE_INTERNAL_END_PAREN) }? rparen[false] |
+            // which may end what the expression is part of, and so the expression
+            { size() >= start_size && !inTransparentMode(MODE_INTERNAL_END_PAREN) }? rparen[false] |
 
             { inLanguage(LANGUAGE_OBJECTIVE_C) && LA(1) == LBRACKET }? complete_objective_c_call |
 
             // argument mode (as part of call)
-            { inMode(MODE_ARGUMENT) }? argument |
+            { size() >= start_size && inMode(MODE_ARGUMENT) }? argument |
 
             // expression with right parentheses if a previous match is in one
-            { LA(1) != RPAREN || inTransparentMode(MODE_INTERNAL_END_PAREN) }? expression |
+            { size() >= start_size && (LA(1) != RPAREN || inTransparentMode(MODE_INTERNAL_END_PAREN)) }? expression |
 
             colon_marked
 
-- 
2.43.0


From 72c13e6af3b5adc527267bc075f423bea1294b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:27:23 +0000
Subject: [PATCH 113/115] fix: initializer lists and throws inside a lambda or
 class in a condition

---
 src/parser/srcMLParser.g | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index 592eb7c..0735e73 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -833,7 +833,7 @@ start[] { ++start_count; ENTRY_DEBUG_START ENTRY_DEBUG } :
         { inMode(MODE_NAMESPACE) }? lcurly[false] |
 
         // don't confuse with expression block
-        { ((inTransparentMode(MODE_CONDITION) ||
+        { (((inTransparentMode(MODE_CONDITION) && (getFirstMode(MODE_CONDITION | MODE_BLOCK) & MODE_CONDITION) != 0) ||
             (!inMode(MODE_EXPRESSION) && !inMode(MODE_EXPRESSION_BLOCK | MODE_EXPECT))) 
         && !inTransparentMode(MODE_CALL | MODE_INTERNAL_END_PAREN)
         && (!inLanguage(LANGUAGE_CXX) || !inTransparentMode(MODE_INIT | MODE_EXPECT))) || (inTransparentMode(MODE_ANONYMOUS) && !inMode(MODE_EXPRESSION)) }? lcurly |
-- 
2.43.0


From a873166bb542a7898c539e6b0f6d89e61822bd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:32:03 +0000
Subject: [PATCH 114/115] fix: declarations and functions whose type is auto
 with a modifier

---
 src/parser/srcMLParser.g | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index 0735e73..acdd18d 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -1388,7 +1388,7 @@ function_type[int type_count] { bool is_compound = false; ENTRY_DEBUG } :
         (options { greedy = true; } : { inputState->guessing && (LA(1) == TYPENAME || LA(1) == CONST) }? (lead_type_identifier))* 
 
         // match auto keyword first as special case do no warn about ambiguity
-        (options { generateAmbigWarnings = false; } : auto_keyword[type_count > 1] |
+        (options { generateAmbigWarnings = false; } : auto_keyword[type_count > 1 && next_token() != REFOPS && next_token() != RVALUEREF && next_token() != MULTOPS] |
             { is_class_type_identifier() }? (options { greedy = true; } :
                 { !class_tokens_set.member(LA(1)) }? 
                     (options { generateAmbigWarnings = false; } : specifier | { look_past_rule(&srcMLParser::identifier) != LPAREN }? identifier | macro_call) { decTypeCount(); })*
@@ -4412,7 +4412,7 @@ pattern_check_core[int& token,      /* second token, after name (always returned
                 set_bool[operatorname, false] |
 
                 // always count as a name for now since is always used as a type or type modifier
-                auto_keyword[false] | 
+                auto_keyword[false] set_bool[foundpure] | 
 
                 EVENT set_bool[is_event] |
 
@@ -7297,7 +7297,7 @@ variable_declaration_type[int type_count] {  bool is_compound = false; ENTRY_DEB
 
     // match auto keyword first as special case do no warn about ambiguity
     (options { generateAmbigWarnings = false; } : 
-        { LA(1) == CXX_CLASS && keyword_name_token_set.member(next_token()) }? keyword_name | auto_keyword[type_count > 1] |
+        { LA(1) == CXX_CLASS && keyword_name_token_set.member(next_token()) }? keyword_name | auto_keyword[type_count > 1 && next_token() != REFOPS && next_token() != RVALUEREF && next_token() != MULTOPS] |
         { is_class_type_identifier() }? (options { greedy = true; } : 
             { !class_tokens_set.member(LA(1)) }? 
                 (options { generateAmbigWarnings = false; } : specifier | { look_past_rule(&srcMLParser::identifier) != LPAREN }? identifier | macro_call) { decTypeCount(); })*
@@ -8375,7 +8375,7 @@ parameter_type_count[int& type_count, bool output_type = true] { CompleteElement
 
 
         // match auto keyword first as special case do no warn about ambiguity
-        ((options { generateAmbigWarnings = false; } : this_specifier | auto_keyword[type_count > 1] |
+        ((options { generateAmbigWarnings = false; } : this_specifier | auto_keyword[type_count > 1 && next_token() != REFOPS && next_token() != RVALUEREF && next_token() != MULTOPS] |
          { is_class_type_identifier() }? (options { greedy = true; } :
             { !class_tokens_set.member(LA(1)) }?
                 (options { generateAmbigWarnings = false; } : specifier | { look_past_rule(&srcMLParser::identifier) != LPAREN }? identifier | macro_call) set_int[type_count, type_count - 1])*
@@ -8430,7 +8430,7 @@ parameter_type[] { CompleteElement element(this); int type_count = 0; int second
         { pattern_check(stmt_type, secondtoken, type_count, after_token) && (type_count ? type_count : (type_count = 1))}?
 
         // match auto keyword first as special case do no warn about ambiguity
-        ((options { generateAmbigWarnings = false; } : auto_keyword[type_count > 1] |
+        ((options { generateAmbigWarnings = false; } : auto_keyword[type_count > 1 && next_token() != REFOPS && next_token() != RVALUEREF && next_token() != MULTOPS] |
          { is_class_type_identifier() }? (options { greedy = true; } :
             { !class_tokens_set.member(LA(1)) }?
                 (options { generateAmbigWarnings = false; } : specifier | { look_past_rule(&srcMLParser::identifier) != LPAREN }? identifier | macro_call) set_int[type_count, type_count - 1])*
-- 
2.43.0


From a7a48799440cbd4f676c718d0a6bfee111312d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:34:22 +0000
Subject: [PATCH 115/115] fix: auto after const is the name of a type when a
 modifier follows

---
 src/parser/srcMLParser.g | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index acdd18d..a8be0e4 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -4681,7 +4681,7 @@ pure_lead_type_identifier[] { ENTRY_DEBUG } :
         { 
             argument_token_set.member(LA(1))
         }?
-        specifier | template_specifier | auto_keyword[true] |
+        specifier | template_specifier | auto_keyword[next_token() != REFOPS && next_token() != RVALUEREF && next_token() != MULTOPS] |
 
         { inLanguage(LANGUAGE_CSHARP) && look_past(COMMA) == RBRACKET }?
         LBRACKET (COMMA)* RBRACKET |
-- 
2.43.0

