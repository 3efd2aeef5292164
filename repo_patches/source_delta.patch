From 0245d73a3f983acc10ba8184a62439cfc4b051d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:29:31 +0000
Subject: [PATCH 01/66] fix: only treat a read of zero bytes as the end of a
 stream input

ParserStreamInput::Read may return fewer bytes than requested. A short read
was taken for the end of the data, so the rest of the document was dropped.
---
 src/ParserInput.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ParserInput.cc b/src/ParserInput.cc
index aca5ec8..5611884 100644
--- a/src/ParserInput.cc
+++ b/src/ParserInput.cc
@@ -68,7 +68,7 @@ namespace libvariant {
 		while (!eof && (num < len || num == 0)) {
 			unsigned to_read = buffer.size() - num - offset;
 			unsigned num_read = Read(&buffer[num + offset], to_read);
-			if (num_read < to_read) { eof = true; }
+			if (num_read == 0) { eof = true; }
 			num += num_read;
 		}
 		len = num;
-- 
2.43.0


From 9aae2f40c5a58a83a1a9de60ca54d70acddc34d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:29:31 +0000
Subject: [PATCH 02/66] fix: pop the right action when a document has no begin
 event

A list or map that ends a document without begin/end events, such as an
XML file whose root is <array/>, let the outer handler pop the inner one,
which was then used after being freed.
---
 src/VariantParsing.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/VariantParsing.cc b/src/VariantParsing.cc
index 4bb32f0..521408c 100644
--- a/src/VariantParsing.cc
+++ b/src/VariantParsing.cc
@@ -121,13 +121,15 @@ namespace libvariant {
 		}
 
 		void Finish(ParserImpl *p) {
+			// Leave the action stack before handing the value to base, since base
+			// may finish as well. The reference keeps this alive until then.
+			shared_ptr<ParserActions> self(p->PopAction());
+			done = true;
 			if (base) {
 				base->SetValue(p, result, (anchor.empty() ? 0 : anchor.c_str()));
 			} else {
 				state->result = result;
 			}
-			done = true;
-			p->PopAction();
 		}
 
 		int Level() {
-- 
2.43.0


From 3a7b21a0fc923bcd14bd841b635b8945860676a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:29:31 +0000
Subject: [PATCH 03/66] fix: clear errno before testing it for a range error

A stale ERANGE turned the largest signed integer into an unsigned value.
---
 src/ArgParse.cc       | 1 +
 src/GuessScalar.cc    | 1 +
 src/XMLPLISTParser.cc | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 1b8235a..bebc40b 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -1521,6 +1521,7 @@ namespace libvariant {
 		{
 			long long val;
 			char *end = 0;
+			errno = 0;
 			val = strtoll(arg, &end, 10);
 			if (val == 0 && end == arg) { ParseArgIntError(arg); }
 			if (arg + len != end) { ParseArgIntError(arg); }
diff --git a/src/GuessScalar.cc b/src/GuessScalar.cc
index 5094271..56ea479 100644
--- a/src/GuessScalar.cc
+++ b/src/GuessScalar.cc
@@ -80,6 +80,7 @@ namespace libvariant {
 				action->Scalar(p, false, anchor, tag);
 			} else if (match[MATCH_INT10].rm_so != -1) {
 				long long val;
+				errno = 0;
 				val = strtoll(&value[match[MATCH_INT10].rm_so], 0, 10);
 				if (val == LLONG_MAX && errno == ERANGE) {
 					unsigned long long v;
diff --git a/src/XMLPLISTParser.cc b/src/XMLPLISTParser.cc
index cfbaf33..55e9d61 100644
--- a/src/XMLPLISTParser.cc
+++ b/src/XMLPLISTParser.cc
@@ -235,6 +235,7 @@ namespace libvariant {
 				empty = false;
 				const char *value = (const char*)xmlTextReaderConstValue(reader);
 				intmax_t val;
+				errno = 0;
 				val = strtoll(value, 0, 0);
 				if (val == LLONG_MAX && errno == ERANGE) {
 					uintmax_t v;
-- 
2.43.0


From c96e7c94e146a1122bcc1db24872e5bda4f65ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:33:39 +0000
Subject: [PATCH 04/66] fix: keep the whole text of an XML plist element

A string of white space only was read back as an empty string, and text
interrupted by a comment or CDATA section was reported as several values.
---
 src/XMLPLISTParser.cc | 94 ++++++++++++++++++-------------------------
 src/XMLPLISTParser.h  |  5 ++-
 2 files changed, 42 insertions(+), 57 deletions(-)

diff --git a/src/XMLPLISTParser.cc b/src/XMLPLISTParser.cc
index 55e9d61..9368558 100644
--- a/src/XMLPLISTParser.cc
+++ b/src/XMLPLISTParser.cc
@@ -99,11 +99,13 @@ namespace libvariant {
 						loop = EndElement(TopAction(), StringToNode(name));
 						break;
 					case XML_READER_TYPE_TEXT:
-						loop = ProcessText(TopAction());
+					case XML_READER_TYPE_CDATA:
+					case XML_READER_TYPE_WHITESPACE:
+					case XML_READER_TYPE_SIGNIFICANT_WHITESPACE:
+						loop = ProcessText();
 						break;
 					case XML_READER_TYPE_END_ENTITY:
 					case XML_READER_TYPE_ATTRIBUTE:
-					case XML_READER_TYPE_CDATA:
 					case XML_READER_TYPE_ENTITY_REFERENCE:
 					case XML_READER_TYPE_ENTITY:
 					case XML_READER_TYPE_PROCESSING_INSTRUCTION:
@@ -112,8 +114,6 @@ namespace libvariant {
 					case XML_READER_TYPE_DOCUMENT_TYPE:
 					case XML_READER_TYPE_DOCUMENT_FRAGMENT:
 					case XML_READER_TYPE_NOTATION:
-					case XML_READER_TYPE_WHITESPACE:
-					case XML_READER_TYPE_SIGNIFICANT_WHITESPACE:
 					case XML_READER_TYPE_XML_DECLARATION:
 					case XML_READER_TYPE_NONE:
 					default:
@@ -156,7 +156,7 @@ namespace libvariant {
 		case IntegerNode:
 			if (!empty_node) {
 				statestack.push_back(nodetype);
-				empty = true;
+				text.clear();
 			} else {
 				err = true;
 				errorstr = "libvariant XML PLIST does not allow empty interger elements";
@@ -166,7 +166,7 @@ namespace libvariant {
 		case FloatNode:
 			if (!empty_node) {
 				statestack.push_back(nodetype);
-				empty = true;
+				text.clear();
 			} else {
 				err = true;
 				errorstr = "libvariant XML PLIST does not allow empty real elements";
@@ -176,7 +176,7 @@ namespace libvariant {
 		case StringNode:
 			if (!empty_node) {
 				statestack.push_back(nodetype);
-				empty = true;
+				text.clear();
 			} else {
 				err = true;
 				errorstr = "libvariant XML PLIST does not allow empty string elements";
@@ -186,7 +186,7 @@ namespace libvariant {
 		case BlobNode:
 			if (!empty_node) {
 				statestack.push_back(nodetype);
-				empty = true;
+				text.clear();
 			} else {
 				err = true;
 				errorstr = "libvariant XML PLIST does not allow empty data elements";
@@ -206,7 +206,7 @@ namespace libvariant {
 					throw std::runtime_error(errorstr);
 				}
 				statestack.push_back(nodetype);
-				empty = true;
+				text.clear();
 			}
 			return true;
 		case ListNode:
@@ -221,74 +221,56 @@ namespace libvariant {
 		}
 	}
 
-	bool XMLPLISTParserImpl::ProcessText(ParserActions *action) {
+	bool XMLPLISTParserImpl::ProcessText() {
 		switch (statestack.back()) {
-		case NullNode:
-		case RootNode:
-		case TrueNode:
-		case FalseNode:
-		case MapNode:
-		case ListNode:
+		case IntegerNode:
+		case FloatNode:
+		case StringNode:
+		case BlobNode:
+		case KeyNode:
+			// An element can have several pieces of text (e.g. around a comment).
+			text.append((const char*)xmlTextReaderConstValue(reader));
 			return true;
+		default:
+			return true;
+		}
+	}
+
+	void XMLPLISTParserImpl::EmitText(ParserActions *action, State_t nodetype) {
+		switch (nodetype) {
 		case IntegerNode:
 			{
-				empty = false;
-				const char *value = (const char*)xmlTextReaderConstValue(reader);
 				intmax_t val;
 				errno = 0;
-				val = strtoll(value, 0, 0);
+				val = strtoll(text.c_str(), 0, 0);
 				if (val == LLONG_MAX && errno == ERANGE) {
 					uintmax_t v;
-					v = strtoull(value, 0, 0);
+					v = strtoull(text.c_str(), 0, 0);
 					action->Scalar(this, v, 0, 0);
 				} else {
 					action->Scalar(this, val, 0, 0);
 				}
 			}
-			return true;
+			break;
 		case FloatNode:
-			{
-				empty = false;
-				const char *value = (const char*)xmlTextReaderConstValue(reader);
-				double val = strtod(value, 0);
-				action->Scalar(this, val, 0, 0);
-			}
-			return true;
-		case StringNode:
-			{
-				empty = false;
-				const char *value = (const char*)xmlTextReaderConstValue(reader);
-				action->Scalar(this, value, strlen(value), 0, 0);
-			}
-			return true;
+			action->Scalar(this, strtod(text.c_str(), 0), 0, 0);
+			break;
 		case BlobNode:
 			{
-				empty = false;
-				const char *value = (const char*)xmlTextReaderConstValue(reader);
-				unsigned length = strlen(value);
 				void *data = 0;
-				if (posix_memalign(&data, 64, Base64DecodeSize(length)) != 0) {
+				if (posix_memalign(&data, 64, Base64DecodeSize(text.length())) != 0) {
 					err = true;
 					errorstr = "memory allocation failure";
 					throw std::bad_alloc();
 				}
-				unsigned len = Base64Decode(data, value, length);
+				unsigned len = Base64Decode(data, text.c_str(), text.length());
 				action->Scalar(this, Blob::CreateFree(data, len), 0, 0);
 			}
-			return true;
-		case KeyNode:
-			{
-				empty = false;
-				const char *value = (const char*)xmlTextReaderConstValue(reader);
-				action->Scalar(this, value, strlen(value), 0, 0);
-			}
-			return true;
+			break;
 		default:
-			err = true;
-			errorstr = "Invalid libvariant XML PLIST parser state";
-			throw std::runtime_error(errorstr);
+			action->Scalar(this, text.c_str(), text.length(), 0, 0);
+			break;
 		}
-
 	}
 
 	bool XMLPLISTParserImpl::EndElement(ParserActions *action, State_t nodetype) {
@@ -305,22 +287,24 @@ namespace libvariant {
 			return false;
 		case IntegerNode:
 		case FloatNode:
-			if (empty) {
+			if (text.find_first_not_of(" \t\r\n") == std::string::npos) {
 				err = true;
 				errorstr = "libvariant XML PLIST parser cannot have empty numeric nodes";
 				throw std::runtime_error(errorstr);
 			}
+			EmitText(action, nodetype);
 			return false;
 		case BlobNode:
-			if (empty) {
+			if (text.find_first_not_of(" \t\r\n") == std::string::npos) {
 				err = true;
 				errorstr = "libvariant XML PLIST parser cannot have empty data nodes";
 				throw std::runtime_error(errorstr);
 			}
+			EmitText(action, nodetype);
 			return false;
 		case StringNode:
 		case KeyNode:
-			if (empty) { action->Scalar(this, "", 0, 0, 0); }
+			EmitText(action, nodetype);
 			return false;
 		case RootNode:
 			action->EndDocument(this);
diff --git a/src/XMLPLISTParser.h b/src/XMLPLISTParser.h
index 6802ef0..9df1812 100644
--- a/src/XMLPLISTParser.h
+++ b/src/XMLPLISTParser.h
@@ -59,7 +59,8 @@ namespace libvariant {
 		virtual void Reset();
 	private:
 		bool BeginElement(ParserActions *action, State_t nodetype);
-		bool ProcessText(ParserActions *action);
+		bool ProcessText();
+		void EmitText(ParserActions *action, State_t nodetype);
 		bool EndElement(ParserActions *action, State_t nodetype);
 		void Close();
 		void HandleError(const char *fnname);
@@ -72,7 +73,7 @@ namespace libvariant {
 		xmlTextReaderPtr reader;
 		shared_ptr<ParserInput> input;
 		bool closed;
-		bool empty;
+		std::string text;
 		bool err;
 		std::string errorstr;
 	};
-- 
2.43.0


From b20872d3f13078f2c79240b172ef5943781ff315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:11 +0000
Subject: [PATCH 05/66] fix: stop guessing the format at the end of white space
 only input

At the end of the data the input still returns the white space seen so far,
and the byte behind it was examined.
---
 src/GuessFormat.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GuessFormat.cc b/src/GuessFormat.cc
index d37734e..48831da 100644
--- a/src/GuessFormat.cc
+++ b/src/GuessFormat.cc
@@ -22,7 +22,7 @@ namespace libvariant {
 			if (i >= len) {
 				unsigned l = i+1;
 				ptr = (const char*)in->GetPtr(l);
-				if (!ptr) {
+				if (!ptr || l <= i) {
 					throw std::runtime_error(
 							"libvariant::GuessFormat: Unable to guess input format, unexpected end of input."
 							);
-- 
2.43.0


From c6cb8783dea178900a284450c5971a1a08d98bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:39:07 +0000
Subject: [PATCH 06/66] fix: report malformed characters before the first JSON
 value

They were ignored but left in the number buffer, so that '![-20]' gave an
uninitialised number.
---
 src/JSONParser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/JSONParser.cc b/src/JSONParser.cc
index 9d385a8..2e48a8b 100644
--- a/src/JSONParser.cc
+++ b/src/JSONParser.cc
@@ -155,7 +155,7 @@ namespace libvariant {
 							else { status = S_ERROR; }
 						}
 					}
-				} else if (status == S_OK) { status = S_ERROR; }
+				} else { status = S_ERROR; }
 				++c;
 			}
 			input->Release(c - ptr);
-- 
2.43.0


From e629803356f233eff011b6f066647a6a327048ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:59 +0000
Subject: [PATCH 07/66] fix: do not read past the Base64 decoding table for '{'

---
 src/Base64.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Base64.cc b/src/Base64.cc
index 99ccc50..892ae4b 100644
--- a/src/Base64.cc
+++ b/src/Base64.cc
@@ -128,7 +128,7 @@ namespace libvariant {
 		do {\
 			if (i == e) { return o - (signed char*)outptr; }\
 			signed char val = *i++ - 43;\
-			if (val < 0 || val > decoding_size) { fragment = -1; }\
+			if (val < 0 || val >= decoding_size) { fragment = -1; }\
 			else { fragment = decoding[(int)val]; }\
 		} while (fragment < 0)
 
-- 
2.43.0


From cd404b3342dce2bf690c1b6d989298b31fc966be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:14 +0000
Subject: [PATCH 08/66] fix: skip empty buffers when encoding Base64

An empty buffer was read anyway, so an empty blob was written as one byte.
---
 src/Base64.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Base64.cc b/src/Base64.cc
index 892ae4b..303b661 100644
--- a/src/Base64.cc
+++ b/src/Base64.cc
@@ -15,12 +15,13 @@ namespace libvariant {
 	public:
 		iov_iterator() : iov(0), len(0), slab(0), offset(0) {}
 		iov_iterator(const iov_iterator &o) : iov(o.iov), len(o.len), slab(o.slab), offset(o.offset) {}
-		iov_iterator(const struct iovec *v, unsigned l) : iov(v), len(l), slab(0), offset(0) {}
+		iov_iterator(const struct iovec *v, unsigned l) : iov(v), len(l), slab(0), offset(0) { SkipEmpty(); }
 		iov_iterator &operator++() {
 			++offset;
 			if (offset >= iov[slab].iov_len) {
 				++slab;
 				offset = 0;
+				SkipEmpty();
 			}
 			return *this;
 		}
@@ -46,6 +47,10 @@ namespace libvariant {
 		}
 
 	private:
+		void SkipEmpty() {
+			while (slab < len && iov[slab].iov_len == 0) { ++slab; }
+		}
+
 		const struct iovec *iov;
 		unsigned len;
 		unsigned slab;
-- 
2.43.0


From 473ac1bb0b27aea331dc5514e2324d06298139b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:45 +0000
Subject: [PATCH 09/66] fix: Stop writing when the output cannot accept more
 bytes

The JSON and bundle header emitters and the payload writer called Write
again and again when it accepted nothing, for example on a full disk. The
padding before a payload lost its final NUL when the last piece was short.

All of them now go through EmitterOutput::WriteAll, which continues after
partial writes and throws when no progress is possible.
---
 include/Variant/EmitterOutput.h |  9 +++++++++
 src/BundleHdrEmitter.h          |  5 +----
 src/EmitterOutput.cc            | 17 +++++++++++++++++
 src/JSONEmitter.cc              | 14 +++++---------
 src/Payload.cc                  | 13 ++-----------
 5 files changed, 34 insertions(+), 24 deletions(-)

diff --git a/include/Variant/EmitterOutput.h b/include/Variant/EmitterOutput.h
index ffc5b1e..13b7304 100644
--- a/include/Variant/EmitterOutput.h
+++ b/include/Variant/EmitterOutput.h
@@ -31,11 +31,20 @@ namespace libvariant {
 
 	class EmitterOutput {
 	public:
+		EmitterOutput() : write_failed(false) {}
 		virtual ~EmitterOutput();
 		/// Return the number of bytes written, or throw an exception
 		virtual unsigned Write(const void *ptr, unsigned len) = 0;
 		virtual void Flush() {}
 		virtual unsigned NumBytesWritten() const = 0;
+		/**
+		 * Write all the bytes, with as many calls to Write as it takes.
+		 * Throws if Write does or if it is unable to accept any more
+		 * bytes. After that no more bytes are passed on.
+		 */
+		void WriteAll(const void *ptr, unsigned len);
+	private:
+		bool write_failed;
 	};
 
 	class EmitterFileOutput : public EmitterOutput {
diff --git a/src/BundleHdrEmitter.h b/src/BundleHdrEmitter.h
index 04b1a2b..7ad0ae4 100644
--- a/src/BundleHdrEmitter.h
+++ b/src/BundleHdrEmitter.h
@@ -95,10 +95,7 @@ namespace libvariant {
 		}
 
 		void Write(const char *str, unsigned len) {
-			unsigned num_written = 0;
-			while (num_written < len) {
-				num_written += output->Write(str + num_written, len - num_written);
-			}
+			output->WriteAll(str, len);
 		}
 
 		shared_ptr<EmitterOutput> output;
diff --git a/src/EmitterOutput.cc b/src/EmitterOutput.cc
index 5645c9d..166cd6c 100644
--- a/src/EmitterOutput.cc
+++ b/src/EmitterOutput.cc
@@ -29,6 +29,23 @@ namespace libvariant {
 
 	EmitterOutput::~EmitterOutput() {}
 
+	void EmitterOutput::WriteAll(const void *ptr, unsigned len) {
+		if (write_failed) {
+			throw std::runtime_error("libvariant: An earlier write to the output failed");
+		}
+		const char *p = (const char*)ptr;
+		write_failed = true;
+		while (len > 0) {
+			unsigned num = Write(p, len);
+			if (num == 0 || num > len) {
+				throw std::runtime_error("libvariant: Unable to write to the output");
+			}
+			p += num;
+			len -= num;
+		}
+		write_failed = false;
+	}
+
 	EmitterFileOutput::EmitterFileOutput(FILE *f, bool c) : file(f), num_bytes(0), cls(c) {}
 
 	EmitterFileOutput::~EmitterFileOutput() {
diff --git a/src/JSONEmitter.cc b/src/JSONEmitter.cc
index 9389e32..ad9ee5e 100644
--- a/src/JSONEmitter.cc
+++ b/src/JSONEmitter.cc
@@ -151,10 +151,7 @@ namespace libvariant {
 
 	void JSONEmitterImpl::Flush() {
 		if (buffer_len > 0) {
-			unsigned num_written = 0;
-			while (num_written < buffer_len) {
-				num_written += output->Write(&buffer[num_written], buffer_len - num_written);
-			}
+			output->WriteAll(&buffer[0], buffer_len);
 			buffer_len = 0;
 		}
 		output->Flush();
@@ -229,7 +226,9 @@ namespace libvariant {
 			memset(&buffer[buffer_len], ' ', BUFFER_THRESHOLD);
 			unsigned num_written = 0;
 			while (num_written < indent) {
-				num_written += output->Write(&buffer[buffer_len], min(indent - num_written, BUFFER_THRESHOLD));
+				unsigned num = min(indent - num_written, BUFFER_THRESHOLD);
+				output->WriteAll(&buffer[buffer_len], num);
+				num_written += num;
 			}
 		} else {
 			if (indent + buffer_len > MAX_BUFFER_LEN) {
@@ -281,10 +280,7 @@ namespace libvariant {
 	void JSONEmitterImpl::EmitRaw(const char *text, unsigned len) {
 		if (len > BUFFER_THRESHOLD) {
 			Flush();
-			unsigned num_written = 0;
-			while (num_written < len) {
-				num_written += output->Write(&text[num_written], len - num_written);
-			}
+			output->WriteAll(text, len);
 		} else {
 			if (len + buffer_len > MAX_BUFFER_LEN) {
 				Flush();
diff --git a/src/Payload.cc b/src/Payload.cc
index 4787b82..76e5690 100644
--- a/src/Payload.cc
+++ b/src/Payload.cc
@@ -174,21 +174,12 @@ namespace libvariant {
 		unsigned num = PADDING_MOD - (out->NumBytesWritten() + 1) % PADDING_MOD;
 		std::vector<char> buf(num, '\n');
 		buf.push_back('\0');
-		unsigned written = 0;
-		while (written < num) {
-			written += out->Write(&buf[written], buf.size() - written);
-		}
+		out->WriteAll(&buf[0], buf.size());
 
 		if (payload_exists && !ignore_payload) {
 			unsigned num_slabs = blob->GetNumBuffers();
 			for (unsigned slab = 0; slab < num_slabs; ++slab) {
-				unsigned to_write = blob->GetLength(slab);
-				char *ptr = (char*)blob->GetPtr(slab);
-				while (to_write > 0) {
-					unsigned num = out->Write(ptr, to_write);
-					ptr += num;
-					to_write -= num;
-				}
+				out->WriteAll(blob->GetPtr(slab), blob->GetLength(slab));
 			}
 			out->Flush();
 		}
-- 
2.43.0


From f0ad15e1726251a34c02cefcd4e24950d34937a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:27 +0000
Subject: [PATCH 10/66] fix: Handle write failures in the YAML and XML emitters
 and in destructors

The YAML emitter took the number of bytes written for a success flag, so a
short write silently lost data, and both YAML and XML let exceptions of the
output pass through the C library. A failed YAML emitter freed its event
twice or leaked its state. The destructors of the JSON, bundle header and
XML emitters could throw and end the process.

Write everything or report failure to the C library, carry the exception
over it, and do not let destructors throw. Flush of the YAML emitter now
also flushes its output.
---
 src/BundleHdrEmitter.cc |  3 +-
 src/DeferredException.h | 80 +++++++++++++++++++++++++++++++++++++++++
 src/JSONEmitter.cc      |  3 +-
 src/XMLPLISTEmitter.cc  | 13 +++++--
 src/XMLPLISTEmitter.h   |  5 ++-
 src/YAMLEmitter.cc      | 33 ++++++++++++-----
 src/YAMLEmitter.h       |  4 +++
 7 files changed, 128 insertions(+), 13 deletions(-)
 create mode 100644 src/DeferredException.h

diff --git a/src/BundleHdrEmitter.cc b/src/BundleHdrEmitter.cc
index d7db891..0cdddfc 100644
--- a/src/BundleHdrEmitter.cc
+++ b/src/BundleHdrEmitter.cc
@@ -22,7 +22,8 @@ namespace libvariant {
 
 
 	BundleHdrEmitterImpl::~BundleHdrEmitterImpl() {
-		Close();
+		try { Close(); }
+		catch (...) {}
 	}
 
 
diff --git a/src/DeferredException.h b/src/DeferredException.h
new file mode 100644
index 0000000..9dd0d82
--- /dev/null
+++ b/src/DeferredException.h
@@ -0,0 +1,80 @@
+//=============================================================================
+//	This library is free software; you can redistribute it and/or modify it
+//	under the terms of the GNU Library General Public License as published
+//	by the Free Software Foundation; either version 2 of the License, or
+//	(at your option) any later version.
+//
+//	This library is distributed in the hope that it will be useful,
+//	but WITHOUT ANY WARRANTY; without even the implied warranty of
+//	MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the GNU
+//	Library General Public License for more details.
+//
+//	The GNU Public License is available in the file LICENSE, or you
+//	can write to the Free Software Foundation, Inc., 59 Temple Place -
+//	Suite 330, Boston, MA 02111-1307, USA, or you can find it on the
+//	World Wide Web at http://www.fsf.org.
+//=============================================================================
+/** \file
+ * \brief Carries an exception over the frames of a C library.
+ */
+#ifndef VARIANT_DEFERREDEXCEPTION_H
+#define VARIANT_DEFERREDEXCEPTION_H
+#pragma once
+#include <exception>
+#include <new>
+#include <stdexcept>
+#include <string>
+
+namespace libvariant {
+
+	/**
+	 * A callback of a C library must not throw. It calls Capture in a catch
+	 * block and returns an error; the code that called the C library then
+	 * calls Rethrow.
+	 */
+	class DeferredException {
+	public:
+#if __cplusplus >= 201103L
+		/// Must be called from a catch block
+		void Capture() {
+			if (!ptr) { ptr = std::current_exception(); }
+		}
+
+		/// Throw what was captured, if anything
+		void Rethrow() {
+			if (ptr) {
+				std::exception_ptr p = ptr;
+				ptr = std::exception_ptr();
+				std::rethrow_exception(p);
+			}
+		}
+	private:
+		std::exception_ptr ptr;
+#else
+		DeferredException() : pending(NONE) {}
+
+		void Capture() {
+			if (pending != NONE) { return; }
+			try { throw; }
+			catch (const std::bad_alloc &) { pending = NO_MEMORY; }
+			catch (const std::exception &e) {
+				pending = FAILED;
+				try { message = e.what(); } catch (...) {}
+			}
+			catch (...) { pending = FAILED; }
+		}
+
+		void Rethrow() {
+			Pending p = pending;
+			pending = NONE;
+			if (p == NO_MEMORY) { throw std::bad_alloc(); }
+			if (p == FAILED) { throw std::runtime_error(message); }
+		}
+	private:
+		enum Pending { NONE, NO_MEMORY, FAILED } pending;
+		std::string message;
+#endif
+	};
+
+}
+#endif
diff --git a/src/JSONEmitter.cc b/src/JSONEmitter.cc
index ad9ee5e..02d82cd 100644
--- a/src/JSONEmitter.cc
+++ b/src/JSONEmitter.cc
@@ -52,7 +52,8 @@ namespace libvariant {
 	}
 
 	JSONEmitterImpl::~JSONEmitterImpl() {
-		Close();
+		try { Close(); }
+		catch (...) {}
 	}
 
 	void JSONEmitterImpl::BeginDocument() {
diff --git a/src/XMLPLISTEmitter.cc b/src/XMLPLISTEmitter.cc
index 015b6ed..5c8ccf2 100644
--- a/src/XMLPLISTEmitter.cc
+++ b/src/XMLPLISTEmitter.cc
@@ -31,12 +31,21 @@ namespace libvariant {
 
 	int XMLPLISTEmitterImpl::DoWrite(void *ctx, const char *buffer, int len) {
 		XMLPLISTEmitterImpl *impl = (XMLPLISTEmitterImpl*)ctx;
-		return impl->output->Write(buffer, len);
+		try { impl->output->WriteAll(buffer, len); }
+		catch (...) {
+			impl->deferred.Capture();
+			return -1;
+		}
+		return len;
 	}
 
 	int XMLPLISTEmitterImpl::DoClose(void *ctx) {
 		XMLPLISTEmitterImpl *impl = (XMLPLISTEmitterImpl*)ctx;
-		impl->output->Flush();
+		try { impl->output->Flush(); }
+		catch (...) {
+			impl->deferred.Capture();
+			return -1;
+		}
 		return 0;
 	}
 
diff --git a/src/XMLPLISTEmitter.h b/src/XMLPLISTEmitter.h
index 8e27943..ee0bf33 100644
--- a/src/XMLPLISTEmitter.h
+++ b/src/XMLPLISTEmitter.h
@@ -26,6 +26,7 @@
 #include <libxml/xmlwriter.h>
 #include <stdexcept>
 #include <deque>
+#include "DeferredException.h"
 
 namespace libvariant {
 
@@ -75,8 +76,9 @@ namespace libvariant {
 		static int DoClose(void *ctx);
 	
 		void HandleError(const char *fnname) {
+			deferred.Rethrow();
 			xmlErrorPtr error = xmlGetLastError();
-			if (error) {
+			if (error && error->message) {
 				throw std::runtime_error(error->message);
 			} else {
 				throw std::runtime_error(fnname);
@@ -127,6 +129,7 @@ namespace libvariant {
 		unsigned precision;
 		bool closed;
 		std::deque<State> state;
+		DeferredException deferred;
 	};
 }
 #endif
diff --git a/src/YAMLEmitter.cc b/src/YAMLEmitter.cc
index ecbe8c4..943df37 100644
--- a/src/YAMLEmitter.cc
+++ b/src/YAMLEmitter.cc
@@ -29,9 +29,14 @@
 
 namespace libvariant {
 
-	static int WriteHandler(void *data, unsigned char *buffer, size_t size) {
-		EmitterOutput *out = (EmitterOutput*)data;
-		return out->Write((const void*)buffer, size);
+	int YAMLEmitterImpl::WriteHandler(void *data, unsigned char *buffer, size_t size) {
+		YAMLEmitterImpl *impl = (YAMLEmitterImpl*)data;
+		try { impl->out->WriteAll((const void*)buffer, size); }
+		catch (...) {
+			impl->deferred.Capture();
+			return 0;
+		}
+		return 1;
 	}
 
 	static const char *param_keys[] = { "scalar_style", "map_style", "list_style",
@@ -180,7 +185,7 @@ namespace libvariant {
 		if (yaml_emitter_initialize(&emitter) == 0) {
 			throw std::runtime_error("Unable to initialize YAMLEmitter.");
 		}
-		yaml_emitter_set_output(&emitter, WriteHandler, out.get());
+		yaml_emitter_set_output(&emitter, WriteHandler, this);
 		if (conf.indent > 0) {
 			yaml_emitter_set_indent(&emitter, conf.indent);
 		}
@@ -196,7 +201,10 @@ namespace libvariant {
 
 	YAMLEmitterImpl::~YAMLEmitterImpl() {
 		try { Close(); }
-		catch (const std::runtime_error &) {}
+		catch (...) {}
+		if (!closed) {
+			yaml_emitter_delete(&emitter);
+		}
 	}
 
 	void YAMLEmitterImpl::BeginDocument() {
@@ -357,8 +365,9 @@ namespace libvariant {
 	void YAMLEmitterImpl::Flush() {
 		CheckClosed();
 		if (yaml_emitter_flush(&emitter) == 0) {
-			throw std::runtime_error(emitter.problem);
+			HandleError();
 		}
+		out->Flush();
 	}
 
 	void YAMLEmitterImpl::Close() {
@@ -401,10 +410,18 @@ namespace libvariant {
 	}
 
 	void YAMLEmitterImpl::Emit(yaml_event_t &event) {
+		// The emitter takes over the event, even if it fails.
 		if (yaml_emitter_emit(&emitter, &event) == 0) {
-			yaml_event_delete(&event);
-			throw std::runtime_error(emitter.problem);
+			HandleError();
+		}
+	}
+
+	void YAMLEmitterImpl::HandleError() {
+		deferred.Rethrow();
+		if (emitter.error == YAML_MEMORY_ERROR) {
+			throw std::bad_alloc();
 		}
+		throw std::runtime_error(emitter.problem ? emitter.problem : "YAMLEmitter: error");
 	}
 
 }
diff --git a/src/YAMLEmitter.h b/src/YAMLEmitter.h
index a01250d..4a1be6f 100644
--- a/src/YAMLEmitter.h
+++ b/src/YAMLEmitter.h
@@ -31,6 +31,7 @@
 #include <Variant/Emitter.h>
 #include <yaml.h>
 #include <stdexcept>
+#include "DeferredException.h"
 
 namespace libvariant {
 
@@ -137,8 +138,10 @@ namespace libvariant {
 		virtual void SetParams(Variant params);
 
 	private:
+		static int WriteHandler(void *data, unsigned char *buffer, size_t size);
 		void EmitStreamStart();
 		void Emit(yaml_event_t &event);
+		void HandleError();
 
 		void CheckClosed() {
 			if (closed) {
@@ -163,6 +166,7 @@ namespace libvariant {
 		bool closed;
 		bool in_document;
 		Config conf;
+		DeferredException deferred;
 	};
 
 }
-- 
2.43.0


From 2c2d81915b5f371440ca22f9ec345b1b8ab515f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:27 +0000
Subject: [PATCH 11/66] fix: Do not write XML header text after the payload

The XML emitter writes a final newline when it is closed, which happened
after the payload, so the next message did not start where the payload
ended.
---
 src/Payload.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Payload.cc b/src/Payload.cc
index 76e5690..c900e3d 100644
--- a/src/Payload.cc
+++ b/src/Payload.cc
@@ -168,7 +168,8 @@ namespace libvariant {
 		emitter.BeginDocument();
 		PayloadEmit(v, lpath.begin(), true, dpath.begin(), true, state);
 		emitter.EndDocument();
-		emitter.Flush();
+		// Everything of the header has to be written before the payload
+		emitter.Close();
 
 		// plus 1 because we want a payload to be aligned when adding 1 null byte
 		unsigned num = PADDING_MOD - (out->NumBytesWritten() + 1) % PADDING_MOD;
-- 
2.43.0


From a2d680e66d2b069beafafd80e98c699735b31153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:02:19 +0000
Subject: [PATCH 12/66] fix: Report failures of flush and close when writing
 files and streams

A full disk often shows up only when the stream is flushed or closed. Those
results were ignored, so serializing to a file returned normally and left a
truncated file. A failed close of the XML emitter no longer ends the
document a second time.
---
 include/Variant/EmitterOutput.h |  2 ++
 src/EmitterOutput.cc            | 27 +++++++++++++++++++++++++--
 src/Payload.cc                  |  5 +++--
 src/VariantEmitting.cc          |  5 ++++-
 src/XMLPLISTEmitter.cc          |  7 +++++--
 5 files changed, 39 insertions(+), 7 deletions(-)

diff --git a/include/Variant/EmitterOutput.h b/include/Variant/EmitterOutput.h
index 13b7304..c1067a9 100644
--- a/include/Variant/EmitterOutput.h
+++ b/include/Variant/EmitterOutput.h
@@ -54,6 +54,8 @@ namespace libvariant {
 		virtual unsigned Write(const void *ptr, unsigned len);
 		virtual void Flush();
 		virtual unsigned NumBytesWritten() const { return num_bytes; }
+		/// Close the file if it is owned, throws if it fails.
+		void Close();
 	protected:
 		FILE *file;
 		unsigned num_bytes;
diff --git a/src/EmitterOutput.cc b/src/EmitterOutput.cc
index 166cd6c..c11ecc6 100644
--- a/src/EmitterOutput.cc
+++ b/src/EmitterOutput.cc
@@ -56,15 +56,36 @@ namespace libvariant {
 	}
 
 	unsigned EmitterFileOutput::Write(const void *ptr, unsigned len) {
+		if (!file) {
+			throw std::runtime_error("libvariant: Write to a closed file");
+		}
+		// A line buffered stream may report a failed flush only in its
+		// error indicator.
+		bool had_error = ferror(file);
 		unsigned num = fwrite(ptr, 1, len, file);
 		num_bytes += num;
+		if (num < len || (!had_error && ferror(file))) {
+			throw std::runtime_error("libvariant: Error writing to file");
+		}
 		return num;
 	}
 
 	void EmitterFileOutput::Flush() {
-	   	fflush(file);
+		if (file && fflush(file) != 0) {
+			throw std::runtime_error("libvariant: Error flushing file");
+		}
    	}
 
+	void EmitterFileOutput::Close() {
+		if (cls && file) {
+			FILE *f = file;
+			file = 0;
+			if (fclose(f) != 0) {
+				throw std::runtime_error("libvariant: Error closing file");
+			}
+		}
+	}
+
 	EmitterFilenameOutput::EmitterFilenameOutput(const char *filename, const char *mode)
 		: EmitterFileOutput(fopen(filename, mode), true)
 	{
@@ -93,7 +114,9 @@ namespace libvariant {
 	}
 
 	void EmitterStreambufOutput::Flush() {
-	   	streambuf->pubsync();
+		if (streambuf->pubsync() == -1) {
+			throw std::runtime_error("libvariant: Error flushing stream buffer");
+		}
    	}
 
 	EmitterMemoryOutput::EmitterMemoryOutput(void *ptr, unsigned len, unsigned *out_len)
diff --git a/src/Payload.cc b/src/Payload.cc
index c900e3d..0fe98d4 100644
--- a/src/Payload.cc
+++ b/src/Payload.cc
@@ -182,8 +182,8 @@ namespace libvariant {
 			for (unsigned slab = 0; slab < num_slabs; ++slab) {
 				out->WriteAll(blob->GetPtr(slab), blob->GetLength(slab));
 			}
-			out->Flush();
 		}
+		out->Flush();
 	}
 
 	class ProxyInput : public ParserInput {
@@ -285,8 +285,9 @@ namespace libvariant {
 
 	void SerializeWithPayload(const std::string &filename, Variant v, SerializeType type,
 		   	Variant params) {
-		shared_ptr<EmitterOutput> o = CreateEmitterOutput(filename.c_str());
+		shared_ptr<EmitterFilenameOutput> o(new EmitterFilenameOutput(filename.c_str()));
 		SerializeWithPayload(o, v, type, params);
+		o->Close();
 	}
 
 	void SerializeWithPayload(FILE *f, Variant v, SerializeType type,
diff --git a/src/VariantEmitting.cc b/src/VariantEmitting.cc
index 5429e0c..b9c710c 100644
--- a/src/VariantEmitting.cc
+++ b/src/VariantEmitting.cc
@@ -20,6 +20,7 @@
  */
 #include <Variant/Variant.h>
 #include <Variant/Emitter.h>
+#include <Variant/EmitterOutput.h>
 #include <stdexcept>
 #include <sstream>
 #include <fstream>
@@ -74,9 +75,11 @@ namespace libvariant {
 
 	void Serialize(const std::string &filename, Variant v, SerializeType type,
 		   	Variant params) {
-		Emitter emitter = CreateEmitter(CreateEmitterOutput(filename.c_str()), type, params);
+		shared_ptr<EmitterFilenameOutput> out(new EmitterFilenameOutput(filename.c_str()));
+		Emitter emitter = CreateEmitter(out, type, params);
 		emitter << v;
 		emitter.Close();
+		out->Close();
 	}
 
 	void Serialize(FILE *f, Variant v, SerializeType type,
diff --git a/src/XMLPLISTEmitter.cc b/src/XMLPLISTEmitter.cc
index 5c8ccf2..95358ef 100644
--- a/src/XMLPLISTEmitter.cc
+++ b/src/XMLPLISTEmitter.cc
@@ -185,11 +185,14 @@ namespace libvariant {
 
 	void XMLPLISTEmitterImpl::Close() {
 		if (!closed) {
+			closed = true;
 			if (xmlTextWriterEndDocument(writer) < 0) {
 				HandleError("xmlTextWriterEndDocument");
 			}
-			Flush();
-			closed = true;
+			if (xmlTextWriterFlush(writer) < 0) {
+				HandleError("xmlTextWriterFlush");
+			}
+			output->Flush();
 		}
 	}
 
-- 
2.43.0


From 197244ef3140b9d0cc34855424d182ec8a8161e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:02:19 +0000
Subject: [PATCH 13/66] fix: Start at offset zero when no length is passed to
 the memory output

The write position was uninitialised in that case, and the check against
the capacity could wrap around.
---
 src/EmitterOutput.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/EmitterOutput.cc b/src/EmitterOutput.cc
index c11ecc6..b5665fc 100644
--- a/src/EmitterOutput.cc
+++ b/src/EmitterOutput.cc
@@ -120,7 +120,7 @@ namespace libvariant {
    	}
 
 	EmitterMemoryOutput::EmitterMemoryOutput(void *ptr, unsigned len, unsigned *out_len)
-		: data_ptr(ptr), length(len), out_length(out_len)
+		: data_ptr(ptr), length(len), out_length_dummy(0), out_length(out_len)
    	{
 		if (0 == out_length) {
 			out_length = &out_length_dummy;
@@ -128,7 +128,7 @@ namespace libvariant {
 	}
 
 	unsigned EmitterMemoryOutput::Write(const void *ptr, unsigned len) {
-		if (*out_length + len > length) {
+		if (*out_length > length || len > length - *out_length) {
 			throw std::length_error("Emitter memory output buffer to small.");
 		}
 		memcpy(((char*)data_ptr + *out_length), ptr, len);
-- 
2.43.0


From 1720f8def38e273987c142bd515ae0d1f805f156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:23 +0000
Subject: [PATCH 14/66] fix: Take the handlers of a failed parse off the parser

When parsing failed or ended early the handlers stayed on the parser's
stack and kept a pointer to a local variable, so a later use of the parser
accessed freed memory.
---
 src/VariantParsing.cc | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/VariantParsing.cc b/src/VariantParsing.cc
index 521408c..68ad7f5 100644
--- a/src/VariantParsing.cc
+++ b/src/VariantParsing.cc
@@ -207,12 +207,32 @@ namespace libvariant {
 		p->PushAction(actions);
 	}
 
-	Variant ParseVariant(Parser &p) {
+	// Take actions, and those it has pushed, off the parser.
+	static void RemoveActions(Parser &p, shared_ptr<ParserActions> actions) {
+		while (p.PopAction() != actions);
+	}
+
+	// Parse one document, return false if there is none left.
+	static bool ParseDocument(Parser &p, Variant &result) {
 		ParserState state;
 		shared_ptr<VariantBaseParserActions> actions(new VariantBaseParserActions(&state, 0));
 		p.PushAction(actions);
-		while (p.Run() == 0 && !actions->done);
-		return state.result;
+		try {
+			while (p.Run() == 0 && !actions->done);
+		} catch (...) {
+			// The actions must not outlive the state they refer to.
+			if (!actions->done) { RemoveActions(p, actions); }
+			throw;
+		}
+		if (!actions->done) { RemoveActions(p, actions); }
+		result = state.result;
+		return actions->done;
+	}
+
+	Variant ParseVariant(Parser &p) {
+		Variant result;
+		ParseDocument(p, result);
+		return result;
 	}
 
 	Variant Deserialize(const std::string &str, SerializeType type) {
-- 
2.43.0


From 1a827811580f440cf0742374a89c2e5a18b826e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:23 +0000
Subject: [PATCH 15/66] fix: End the iteration over documents when there are
 none left

Iterating over an empty stream gave one null document. For XML the
iteration never ended, since that parser is not done after a document.
---
 src/VariantParsing.cc | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/VariantParsing.cc b/src/VariantParsing.cc
index 68ad7f5..d053ba7 100644
--- a/src/VariantParsing.cc
+++ b/src/VariantParsing.cc
@@ -342,21 +342,19 @@ namespace libvariant {
 	}
 
 	void LoadAllIterator::Next() {
-		if (!value) {
-			if (!impl->parser.Done()) {
-				value = shared_ptr<Value>(new Value(ParseVariant(impl->parser)));
-			}
-		} else if (value->next) {
+		if (value && value->next) {
 			value = value->next;
-		} else {
-			if (!impl->parser.Done()) {
-				value->next = shared_ptr<Value>(new Value(ParseVariant(impl->parser)));
-				if (impl->parser.Done() && value->next->v.IsNull()) {
-					value->next.reset();
-				}
+			return;
+		}
+		shared_ptr<Value> next;
+		if (!impl->parser.Done()) {
+			Variant v;
+			if (ParseDocument(impl->parser, v)) {
+				next = shared_ptr<Value>(new Value(v));
 			}
-			value = value->next;
 		}
+		if (value) { value->next = next; }
+		value = next;
 	}
 	bool LoadAllIterator::operator==(const LoadAllIterator &that) const {
 		if (value && that.value) {
-- 
2.43.0


From d692d92b3d1f9b558034ccbbee5e88387dcaba50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:24 +0000
Subject: [PATCH 16/66] fix: Handle read failures and repeated use after an
 error in the YAML parser

Exceptions of the input passed through libyaml, which leaked its state.
Running the parser again after an error never returned. It also asked the
input for a full buffer at a time, so documents that had arrived were lost
when reading a later one failed. Creating the parser did not check for
running out of memory.
---
 src/YAMLParser.cc | 46 +++++++++++++++++++++++++++++++++-------------
 src/YAMLParser.h  |  3 +++
 2 files changed, 36 insertions(+), 13 deletions(-)

diff --git a/src/YAMLParser.cc b/src/YAMLParser.cc
index 73a03d7..23a4de5 100644
--- a/src/YAMLParser.cc
+++ b/src/YAMLParser.cc
@@ -31,22 +31,34 @@ namespace libvariant {
 
 	int YAMLParserImpl::ParserReadHandler(void *data, unsigned char *buffer, size_t size, size_t *sizein) {
 		YAMLParserImpl *impl = (YAMLParserImpl*)data;
-		unsigned len = size;
-		const void *ptr = impl->input->GetPtr(len);
-		if (!ptr) {
-			*sizein = 0;
-		   	return 1;
-	   	}
-		*sizein = std::min<unsigned>(size, len);
-		memcpy(buffer, ptr, *sizein);
-		impl->input->Release(*sizein);
+		try {
+			// Take what is available, the rest may never come or fail.
+			unsigned len = 0;
+			const void *ptr = impl->input->GetPtr(len);
+			if (!ptr) {
+				*sizein = 0;
+				return 1;
+			}
+			*sizein = std::min<unsigned>(size, len);
+			memcpy(buffer, ptr, *sizein);
+			impl->input->Release(*sizein);
+		} catch (...) {
+			impl->deferred.Capture();
+			return 0;
+		}
 		return 1;
 	}
 
 	YAMLParserImpl::YAMLParserImpl(shared_ptr<ParserInput> in)
 		: input(in), eof(false), err(false)
 	{
-		yaml_parser_initialize(&parser);
+		InitParser();
+	}
+
+	void YAMLParserImpl::InitParser() {
+		if (yaml_parser_initialize(&parser) == 0) {
+			throw std::bad_alloc();
+		}
 		yaml_parser_set_input(&parser, &ParserReadHandler, this);
 	}
 
@@ -91,10 +103,18 @@ namespace libvariant {
 		bool loop = true;
 		while (loop && !eof && !action_stack.empty()) {
 			yaml_event_t event;
+			if (parser.error != YAML_NO_ERROR) {
+				// There are no more events after an error.
+				throw std::runtime_error(errorstr);
+			}
 			if (yaml_parser_parse(&parser, &event) == 0) {
 				err = true;
+				deferred.Rethrow();
+				if (parser.error == YAML_MEMORY_ERROR) {
+					throw std::bad_alloc();
+				}
 				std::ostringstream oss;
-				oss << "Error parsing YAML: " << parser.problem << " "
+				oss << "Error parsing YAML: " << (parser.problem ? parser.problem : "<NULL problem>") << " "
 					<< (parser.context ? parser.context : "<NULL context>")
 					<< " at line " << parser.problem_mark.line << " column "
 					<< parser.problem_mark.column << "\n";
@@ -187,8 +207,8 @@ namespace libvariant {
 	void YAMLParserImpl::Reset() {
 		eof = false;
 		err = false;
+		errorstr.clear();
 		yaml_parser_delete(&parser);
-		yaml_parser_initialize(&parser);
-		yaml_parser_set_input(&parser, &ParserReadHandler, this);
+		InitParser();
 	}
 }
diff --git a/src/YAMLParser.h b/src/YAMLParser.h
index a1d8f48..8e639c0 100644
--- a/src/YAMLParser.h
+++ b/src/YAMLParser.h
@@ -28,6 +28,7 @@
 #include <Variant/ParserInput.h>
 #include <Variant/SharedPtr.h>
 #include <yaml.h>
+#include "DeferredException.h"
 
 namespace libvariant {
 
@@ -48,12 +49,14 @@ namespace libvariant {
 		virtual std::string ErrorStr() const;
 		virtual void Reset();
 	private:
+		void InitParser();
 		static int ParserReadHandler(void *data, unsigned char *buffer, size_t size, size_t *sizein);
 		yaml_parser_t parser;
 		shared_ptr<ParserInput> input;
 		bool eof;
 		bool err;
 		std::string errorstr;
+		DeferredException deferred;
 	};
 
 }
-- 
2.43.0


From 97886a09aa6a29a04ed02a0ff776632f9f5921d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:08:18 +0000
Subject: [PATCH 17/66] fix: Handle read failures in the XML parser

Exceptions of the input passed through libxml2, which leaked its state. An
error without a message dereferenced a null pointer, and Reset left the
state of the previous document behind.
---
 src/XMLPLISTParser.cc | 27 +++++++++++++++++----------
 src/XMLPLISTParser.h  |  2 ++
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/XMLPLISTParser.cc b/src/XMLPLISTParser.cc
index 9368558..606404f 100644
--- a/src/XMLPLISTParser.cc
+++ b/src/XMLPLISTParser.cc
@@ -330,26 +330,32 @@ namespace libvariant {
 	}
 
 	void XMLPLISTParserImpl::HandleError(const char *fnname) {
-		xmlErrorPtr error = xmlGetLastError();
 		err = true;
-		if (error) {
+		errorstr = fnname;
+		deferred.Rethrow();
+		xmlErrorPtr error = xmlGetLastError();
+		if (error && error->message) {
 			errorstr = error->message;
 			throw std::runtime_error(error->message);
 		} else {
-			errorstr = fnname;
 			throw std::runtime_error(fnname);
 		}
 	}
 
 	int XMLPLISTParserImpl::do_read(void *ctx, char *buffer, int len) {
 		XMLPLISTParserImpl *impl = (XMLPLISTParserImpl*)ctx;
-		unsigned l = len;
-		const void *ptr = impl->input->GetPtr(l);
-		if (!ptr) { return 0; }
-		l = std::min<unsigned>(len, l);
-		memcpy(buffer, ptr, l);
-		impl->input->Release(l);
-		return l;
+		try {
+			unsigned l = len;
+			const void *ptr = impl->input->GetPtr(l);
+			if (!ptr) { return 0; }
+			l = std::min<unsigned>(len, l);
+			memcpy(buffer, ptr, l);
+			impl->input->Release(l);
+			return l;
+		} catch (...) {
+			impl->deferred.Capture();
+			return -1;
+		}
 	}
 
 	int XMLPLISTParserImpl::do_close(void *ctx) {
@@ -400,6 +406,7 @@ namespace libvariant {
 		if (!reader) {
 			HandleError("xmlReaderForIO");
 		}
+		statestack.clear();
 		statestack.push_back(StartState);
 		closed = false;
 		err = false;
diff --git a/src/XMLPLISTParser.h b/src/XMLPLISTParser.h
index 9df1812..b82b9eb 100644
--- a/src/XMLPLISTParser.h
+++ b/src/XMLPLISTParser.h
@@ -26,6 +26,7 @@
 #include <Variant/Parser.h>
 #include <Variant/ParserInput.h>
 #include <Variant/SharedPtr.h>
+#include "DeferredException.h"
 
 
 namespace libvariant {
@@ -76,6 +77,7 @@ namespace libvariant {
 		std::string text;
 		bool err;
 		std::string errorstr;
+		DeferredException deferred;
 	};
 }
 #endif
-- 
2.43.0


From b4878fb34aef689bc35c7d10c2d3799e96871ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:08:18 +0000
Subject: [PATCH 18/66] fix: Do not look behind the input when searching the
 end of a header

When all available bytes had been scanned already, the byte after them was
read.
---
 src/Payload.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Payload.cc b/src/Payload.cc
index 0fe98d4..d9cdc2e 100644
--- a/src/Payload.cc
+++ b/src/Payload.cc
@@ -207,9 +207,8 @@ namespace libvariant {
 		const void *retptr = base_input->GetPtr(len);
 		if (retptr) {
 			const char *ptr = (const char*)retptr;
-			if (ptr[scanned_to] != '\0') {
+			if (scanned_to < len) {
 				scanned_to += strnlen(&ptr[scanned_to], len-scanned_to);
-
 			}
 			len = std::min(len, scanned_to);
 		}
-- 
2.43.0


From 52c55fc8e22e0de3e06921f6dbb6750eba168008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:16:56 +0000
Subject: [PATCH 19/66] fix: Do not continue a failed parse in the middle of
 the document

---
 src/BundleHdrParser.cc | 14 +++++++++++++-
 src/BundleHdrParser.h  |  4 +++-
 src/JSONParser.cc      |  8 +++++++-
 src/XMLPLISTParser.cc  | 13 +++++++++++++
 src/XMLPLISTParser.h   |  1 +
 src/YAMLParser.cc      |  8 ++++----
 6 files changed, 41 insertions(+), 7 deletions(-)

diff --git a/src/BundleHdrParser.cc b/src/BundleHdrParser.cc
index 6030449..4e9bec2 100644
--- a/src/BundleHdrParser.cc
+++ b/src/BundleHdrParser.cc
@@ -80,6 +80,16 @@ namespace libvariant {
 	}
 
 	int BundleHdrParserImpl::Run() {
+		try {
+			return ParseEvents();
+		} catch (...) {
+			// What follows an error is not a document of its own.
+			state = ERROR;
+			throw;
+		}
+	}
+
+	int BundleHdrParserImpl::ParseEvents() {
 		while (!action_stack.empty()) {
 			switch (state) {
 			case START:
@@ -168,6 +178,8 @@ namespace libvariant {
 				break;
 			case STOP:
 				return 1;
+			case ERROR:
+				throw std::runtime_error("BundleHdrParser: An error occurred");
 			default:
 				errorstr = "BundleHdrParser: Inconsistent state";
 				throw std::runtime_error(errorstr);
@@ -207,7 +219,7 @@ namespace libvariant {
 	}
 
 	bool BundleHdrParserImpl::Ok() const {
-		return state != STOP;
+		return state < STOP;
 	}
 
 	std::string BundleHdrParserImpl::ErrorStr() const {
diff --git a/src/BundleHdrParser.h b/src/BundleHdrParser.h
index f6bf331..6bc493a 100644
--- a/src/BundleHdrParser.h
+++ b/src/BundleHdrParser.h
@@ -26,7 +26,8 @@ namespace libvariant {
 			LIST,
 			END_MAP,
 			END,
-			STOP
+			STOP,
+			ERROR
 		};
 
 	public:
@@ -46,6 +47,7 @@ namespace libvariant {
 		virtual bool Ok() const;
 		virtual std::string ErrorStr() const;
 	protected:
+		int ParseEvents();
 		void ReadLine();
 		void RetireLine();
 		bool ScanLine();
diff --git a/src/JSONParser.cc b/src/JSONParser.cc
index 2e48a8b..b7c9f71 100644
--- a/src/JSONParser.cc
+++ b/src/JSONParser.cc
@@ -134,7 +134,13 @@ namespace libvariant {
 	void JSONParserImpl::Parse() {
 		while ( (status == S_OK || status == S_BEGIN) && !action_stack.empty() ) {
 			unsigned len = 0;
-			const unsigned char *ptr = (const unsigned char*)input->GetPtr(len);
+			const unsigned char *ptr;
+			try {
+				ptr = (const unsigned char*)input->GetPtr(len);
+			} catch (...) {
+				status = S_ERROR;
+				throw;
+			}
 			const unsigned char *c = ptr;
 			const unsigned char *end = ptr + len;
 			if (len == 0 || !ptr) { 
diff --git a/src/XMLPLISTParser.cc b/src/XMLPLISTParser.cc
index 606404f..04816b9 100644
--- a/src/XMLPLISTParser.cc
+++ b/src/XMLPLISTParser.cc
@@ -60,6 +60,19 @@ namespace libvariant {
 	}
 
 	int XMLPLISTParserImpl::Run() {
+		if (err) {
+			// What follows an error is not a document of its own.
+			throw std::runtime_error("XMLPLISTParser: An error occurred. " + errorstr);
+		}
+		try {
+			return ParseEvents();
+		} catch (...) {
+			err = true;
+			throw;
+		}
+	}
+
+	int XMLPLISTParserImpl::ParseEvents() {
 		while (!action_stack.empty()) {
 			if (closed) { return 1; }
 			bool loop = true;
diff --git a/src/XMLPLISTParser.h b/src/XMLPLISTParser.h
index b82b9eb..7f620dd 100644
--- a/src/XMLPLISTParser.h
+++ b/src/XMLPLISTParser.h
@@ -59,6 +59,7 @@ namespace libvariant {
 		virtual std::string ErrorStr() const;
 		virtual void Reset();
 	private:
+		int ParseEvents();
 		bool BeginElement(ParserActions *action, State_t nodetype);
 		bool ProcessText();
 		void EmitText(ParserActions *action, State_t nodetype);
diff --git a/src/YAMLParser.cc b/src/YAMLParser.cc
index 23a4de5..7fd8648 100644
--- a/src/YAMLParser.cc
+++ b/src/YAMLParser.cc
@@ -103,9 +103,9 @@ namespace libvariant {
 		bool loop = true;
 		while (loop && !eof && !action_stack.empty()) {
 			yaml_event_t event;
-			if (parser.error != YAML_NO_ERROR) {
-				// There are no more events after an error.
-				throw std::runtime_error(errorstr);
+			if (err) {
+				// What follows an error is not a document of its own.
+				throw std::runtime_error("YAMLParser: An error occurred. " + errorstr);
 			}
 			if (yaml_parser_parse(&parser, &event) == 0) {
 				err = true;
@@ -179,8 +179,8 @@ namespace libvariant {
 				}
 			} catch (...) {
 				err = true;
-				errorstr = "Exception from action...";
 				yaml_event_delete(&event);
+				errorstr = "Exception from action...";
 				throw;
 			}
 			yaml_event_delete(&event);
-- 
2.43.0


From 5505a6d36c9dd95b4f78ddc338a56354fddf8277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:28:55 +0000
Subject: [PATCH 20/66] fix: Write the payload length once when its path leads
 into a list

---
 src/Payload.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Payload.cc b/src/Payload.cc
index d9cdc2e..ab80dc4 100644
--- a/src/Payload.cc
+++ b/src/Payload.cc
@@ -75,8 +75,8 @@ namespace libvariant {
 					   	(on_data ? data_i + 1 : data_i), on_data,
 					   	state);
 			}
-			if (on_len_path && len_i->AsUnsigned() < index) {
-				while (len_i->AsUnsigned() < index) {
+			if (on_len_path && index <= len_i->AsUnsigned()) {
+				while (index < len_i->AsUnsigned()) {
 					state.e.EmitNull();
 					++index;
 				}
-- 
2.43.0


From fe496780e0c64b4a0f3bcd89dec9eaa901e8a61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:39:27 +0000
Subject: [PATCH 21/66] fix: Write strings so that they read back as the same
 string

---
 include/Variant/Emitter.h |  3 +++
 src/Emitter.cc            |  2 +-
 src/GuessScalar.cc        | 12 ++++++++++--
 src/GuessScalar.h         |  3 +++
 src/JSONEmitter.cc        |  5 +++++
 src/JSONEmitter.h         |  1 +
 src/YAMLEmitter.cc        | 16 +++++++++++++++-
 src/YAMLEmitter.h         |  1 +
 8 files changed, 39 insertions(+), 4 deletions(-)

diff --git a/include/Variant/Emitter.h b/include/Variant/Emitter.h
index adff352..53a67c4 100644
--- a/include/Variant/Emitter.h
+++ b/include/Variant/Emitter.h
@@ -51,6 +51,9 @@ namespace libvariant {
 		virtual void EmitTrue() = 0;
 		virtual void EmitFalse() = 0;
 		virtual void Emit(const char *v) = 0;
+		/// Emit a string that can contain null characters. An implementation for
+		// a format that does not support these can leave this to the above.
+		virtual void Emit(const std::string &v) { Emit(v.c_str()); }
 		virtual void Emit(intmax_t v) = 0;
 		virtual void Emit(uintmax_t v) = 0;
 		virtual void Emit(double v) = 0;
diff --git a/src/Emitter.cc b/src/Emitter.cc
index 691d0b3..63ef33f 100644
--- a/src/Emitter.cc
+++ b/src/Emitter.cc
@@ -97,7 +97,7 @@ namespace libvariant {
 	}
 
 	Emitter &Emitter::Emit(const std::string &v) {
-		impl->Emit(v.c_str());
+		impl->Emit(v);
 		return *this;
 	}
 
diff --git a/src/GuessScalar.cc b/src/GuessScalar.cc
index 56ea479..b956d26 100644
--- a/src/GuessScalar.cc
+++ b/src/GuessScalar.cc
@@ -65,13 +65,21 @@ namespace libvariant {
 		GuessRegex::~GuessRegex() {
 			regfree(&guessregex);
 		}
+
+		const regex_t *GetGuessRegex() {
+			static GuessRegex guessregex;
+			return &guessregex.guessregex;
+		}
+	}
+
+	bool GuessIsString(const char *value) {
+		return regexec(GetGuessRegex(), value, 0, 0, 0) != 0;
 	}
 
 	void GuessScalar(const char *value, unsigned length, const char *anchor, const char *tag,
 		   	ParserImpl *p, ParserActions *action) {
-		static GuessRegex guessregex;
 		regmatch_t match[MATCH_MAX];
-		if (regexec(&guessregex.guessregex, value, MATCH_MAX, &match[0], 0) == 0) {
+		if (regexec(GetGuessRegex(), value, MATCH_MAX, &match[0], 0) == 0) {
 			if (match[MATCH_NULL].rm_so != -1) {
 				action->Null(p, anchor, tag);
 			} else if (match[MATCH_TRUE].rm_so != -1) {
diff --git a/src/GuessScalar.h b/src/GuessScalar.h
index d610451..b44f9ef 100644
--- a/src/GuessScalar.h
+++ b/src/GuessScalar.h
@@ -9,5 +9,8 @@
 namespace libvariant {
 	void GuessScalar(const char *value, unsigned length, const char *anchor, const char *tag,
 		   	ParserImpl *p, ParserActions *action);
+
+	/// \return true if GuessScalar takes value for a string.
+	bool GuessIsString(const char *value);
 }
 #endif
diff --git a/src/JSONEmitter.cc b/src/JSONEmitter.cc
index 02d82cd..553285f 100644
--- a/src/JSONEmitter.cc
+++ b/src/JSONEmitter.cc
@@ -108,6 +108,11 @@ namespace libvariant {
 		EmitString(v, strlen(v));
 	}
 
+	void JSONEmitterImpl::Emit(const std::string &v) {
+		CheckSeparator();
+		EmitString(v.c_str(), v.length());
+	}
+
 	void JSONEmitterImpl::Emit(intmax_t v) {
 		CheckSeparator();
 		std::ostringstream oss;
diff --git a/src/JSONEmitter.h b/src/JSONEmitter.h
index f5a2fb1..0bebf3e 100644
--- a/src/JSONEmitter.h
+++ b/src/JSONEmitter.h
@@ -71,6 +71,7 @@ namespace libvariant {
 		virtual void EmitTrue();
 		virtual void EmitFalse();
 		virtual void Emit(const char *v);
+		virtual void Emit(const std::string &v);
 		virtual void Emit(intmax_t v);
 		virtual void Emit(uintmax_t v);
 		virtual void Emit(double v);
diff --git a/src/YAMLEmitter.cc b/src/YAMLEmitter.cc
index 943df37..843aa0a 100644
--- a/src/YAMLEmitter.cc
+++ b/src/YAMLEmitter.cc
@@ -26,6 +26,7 @@
 #include <limits>
 #include <cmath>
 #include "Base64.h"
+#include "GuessScalar.h"
 
 namespace libvariant {
 
@@ -311,7 +312,20 @@ namespace libvariant {
 	}
 
 	void YAMLEmitterImpl::Emit(const char *v) {
-		Emit(v, ANY_SCALAR_STYLE);
+		Emit(std::string(v));
+	}
+
+	void YAMLEmitterImpl::Emit(const std::string &v) {
+		CheckClosed();
+		CheckInDocument();
+		yaml_event_t event;
+		// Without quotes "1", "true", etc. would not be read back as a string
+		int plain = GuessIsString(v.c_str()) ? 1 : 0;
+		if (yaml_scalar_event_initialize(&event, 0, 0, (yaml_char_t*)v.c_str(), v.length(), plain, 1,
+					(yaml_scalar_style_t)ANY_SCALAR_STYLE) == 0) {
+			throw std::runtime_error("Unable to initialize scalar event.");
+		}
+		Emit(event);
 	}
 
 	void YAMLEmitterImpl::Emit(const char *v, ScalarStyle style) {
diff --git a/src/YAMLEmitter.h b/src/YAMLEmitter.h
index 4a1be6f..5913b71 100644
--- a/src/YAMLEmitter.h
+++ b/src/YAMLEmitter.h
@@ -120,6 +120,7 @@ namespace libvariant {
 		virtual void EmitFalse();
 		void Emit(const std::string &v, ScalarStyle style);
 		virtual void Emit(const char *v);
+		virtual void Emit(const std::string &v);
 		void Emit(const char *v, ScalarStyle style);
 		virtual void Emit(intmax_t v);
 		virtual void Emit(uintmax_t v);
-- 
2.43.0


From e9f8b9236f4191224a8bb359923151ac77ebf585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:03:54 +0000
Subject: [PATCH 22/66] fix: Quote the empty string in YAML

A document which is only an empty string could not be read back.
---
 src/YAMLEmitter.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/YAMLEmitter.cc b/src/YAMLEmitter.cc
index 843aa0a..30a689e 100644
--- a/src/YAMLEmitter.cc
+++ b/src/YAMLEmitter.cc
@@ -319,8 +319,8 @@ namespace libvariant {
 		CheckClosed();
 		CheckInDocument();
 		yaml_event_t event;
-		// Without quotes "1", "true", etc. would not be read back as a string
-		int plain = GuessIsString(v.c_str()) ? 1 : 0;
+		// Without quotes "1", "true", "", etc. would not be read back as a string
+		int plain = (!v.empty() && GuessIsString(v.c_str())) ? 1 : 0;
 		if (yaml_scalar_event_initialize(&event, 0, 0, (yaml_char_t*)v.c_str(), v.length(), plain, 1,
 					(yaml_scalar_style_t)ANY_SCALAR_STYLE) == 0) {
 			throw std::runtime_error("Unable to initialize scalar event.");
-- 
2.43.0


From f39fda030d29d078f96b964b820a3cfac323bd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:03:54 +0000
Subject: [PATCH 23/66] fix: Limit the nesting depth of JSON documents

A deeply nested document overflowed the stack when it was destroyed.
---
 src/JSONParser.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/JSONParser.cc b/src/JSONParser.cc
index b7c9f71..6a35e78 100644
--- a/src/JSONParser.cc
+++ b/src/JSONParser.cc
@@ -22,6 +22,10 @@
 
 namespace libvariant {
 
+	// Values are destroyed and emitted recursively, so deeper nesting than
+	// this could run out of stack.
+	static const int MAX_DEPTH = 5000;
+
 	int JSONParserImpl::StaticCallback(void *ctx, int type, const struct JSON_value_struct* value) {
 		JSONParserImpl *impl = (JSONParserImpl*)ctx;
 		if (impl->status == S_BEGIN) {
@@ -126,7 +130,7 @@ namespace libvariant {
 		init_JSON_config(&config);
 		config.callback = StaticCallback;
 		config.callback_ctx = this;
-		config.depth = -1;
+		config.depth = MAX_DEPTH;
 		config.allow_comments = 1;
 		parser = new_JSON_parser(&config);
 	}
-- 
2.43.0


From 54e8d63a22b58f55e7710facefc0607b8bf46b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:03:54 +0000
Subject: [PATCH 24/66] fix: Do not report the end of a JSON list or map that
 is not open

For mismatched brackets the callback was called before the check.
---
 lib/json/JSON_parser.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/json/JSON_parser.c b/lib/json/JSON_parser.c
index 393b3fc..ebcd5d6 100644
--- a/lib/json/JSON_parser.c
+++ b/lib/json/JSON_parser.c
@@ -822,10 +822,10 @@ JSON_parser_char(JSON_parser jc, int next_char)
 /* empty } */
         case -9:        
             parse_buffer_clear(jc);
-            if (jc->callback && !(*jc->callback)(jc->ctx, JSON_T_OBJECT_END, NULL)) {
+            if (!pop(jc, MODE_KEY)) {
                 return false;
             }
-            if (!pop(jc, MODE_KEY)) {
+            if (jc->callback && !(*jc->callback)(jc->ctx, JSON_T_OBJECT_END, NULL)) {
                 return false;
             }
             jc->state = OK;
@@ -836,10 +836,10 @@ JSON_parser_char(JSON_parser jc, int next_char)
             if (!parse_parse_buffer(jc)) {
                 return false;
             }
-            if (jc->callback && !(*jc->callback)(jc->ctx, JSON_T_OBJECT_END, NULL)) {
+            if (!pop(jc, MODE_OBJECT)) {
                 return false;
             }
-            if (!pop(jc, MODE_OBJECT)) {
+            if (jc->callback && !(*jc->callback)(jc->ctx, JSON_T_OBJECT_END, NULL)) {
                 return false;
             }
             jc->type = JSON_T_NONE;
@@ -851,10 +851,10 @@ JSON_parser_char(JSON_parser jc, int next_char)
             if (!parse_parse_buffer(jc)) {
                 return false;
             }
-            if (jc->callback && !(*jc->callback)(jc->ctx, JSON_T_ARRAY_END, NULL)) {
+            if (!pop(jc, MODE_ARRAY)) {
                 return false;
             }
-            if (!pop(jc, MODE_ARRAY)) {
+            if (jc->callback && !(*jc->callback)(jc->ctx, JSON_T_ARRAY_END, NULL)) {
                 return false;
             }
             
-- 
2.43.0


From dbab73c464c335dbb5b58f917b1b6681e17bb805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:03:54 +0000
Subject: [PATCH 25/66] fix: Make YAML parsing independent of how the data
 arrives again

Read a full block as long as the input does not fail, so that errors are
found at the same place for every way of splitting the input. When reading
fails, first parse what arrived before. A failure while reading ahead of the
header is reported before the payload is read.
---
 src/DeferredException.h |  4 ++++
 src/Payload.cc          | 15 +++++++++++++--
 src/YAMLParser.cc       | 14 +++++++++++++-
 3 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/DeferredException.h b/src/DeferredException.h
index 9dd0d82..fae426d 100644
--- a/src/DeferredException.h
+++ b/src/DeferredException.h
@@ -40,6 +40,8 @@ namespace libvariant {
 			if (!ptr) { ptr = std::current_exception(); }
 		}
 
+		bool Pending() const { return bool(ptr); }
+
 		/// Throw what was captured, if anything
 		void Rethrow() {
 			if (ptr) {
@@ -64,6 +66,8 @@ namespace libvariant {
 			catch (...) { pending = FAILED; }
 		}
 
+		bool Pending() const { return pending != NONE; }
+
 		void Rethrow() {
 			Pending p = pending;
 			pending = NONE;
diff --git a/src/Payload.cc b/src/Payload.cc
index ab80dc4..aada52e 100644
--- a/src/Payload.cc
+++ b/src/Payload.cc
@@ -7,6 +7,7 @@
 #include <sstream>
 #include <stdexcept>
 #include <string.h>
+#include "DeferredException.h"
 
 #define PADDING_MOD 32
 
@@ -192,9 +193,12 @@ namespace libvariant {
 		virtual ~ProxyInput();
 		virtual const void *GetPtr(unsigned &len);
 		virtual void Release(unsigned len);
+		/// Throw the failure of reading ahead, if there was one
+		void CheckFailed() { deferred.Rethrow(); }
 	private:
 		shared_ptr<ParserInput> base_input;
 		unsigned scanned_to;
+		DeferredException deferred;
 	};
 
 	ProxyInput::ProxyInput(shared_ptr<ParserInput> i)
@@ -204,7 +208,13 @@ namespace libvariant {
 	ProxyInput::~ProxyInput() {}
 
 	const void *ProxyInput::GetPtr(unsigned &len) {
-		const void *retptr = base_input->GetPtr(len);
+		const void *retptr;
+		try {
+			retptr = base_input->GetPtr(len);
+		} catch (...) {
+			deferred.Capture();
+			throw;
+		}
 		if (retptr) {
 			const char *ptr = (const char*)retptr;
 			if (scanned_to < len) {
@@ -232,9 +242,10 @@ namespace libvariant {
 			ParsePath(lpath, params.Get("length_path", VARIANT_PAYLOAD_LENGTH_PATH).AsString());
 		}
 
-		shared_ptr<ParserInput> input(new ProxyInput(in));
+		shared_ptr<ProxyInput> input(new ProxyInput(in));
 		Parser parser = CreateParser(input, type);
 		Variant ret = ParseVariant(parser);
+		input->CheckFailed();
 
 		// Read any remaining bytes up to and including a terminating null if present.
 		bool loop = true;
diff --git a/src/YAMLParser.cc b/src/YAMLParser.cc
index 7fd8648..fe741df 100644
--- a/src/YAMLParser.cc
+++ b/src/YAMLParser.cc
@@ -31,14 +31,25 @@ namespace libvariant {
 
 	int YAMLParserImpl::ParserReadHandler(void *data, unsigned char *buffer, size_t size, size_t *sizein) {
 		YAMLParserImpl *impl = (YAMLParserImpl*)data;
+		if (impl->deferred.Pending()) { return 0; }
 		try {
-			// Take what is available, the rest may never come or fail.
 			unsigned len = 0;
 			const void *ptr = impl->input->GetPtr(len);
 			if (!ptr) {
 				*sizein = 0;
 				return 1;
 			}
+			if (len < size) {
+				len = size;
+				try {
+					ptr = impl->input->GetPtr(len);
+				} catch (...) {
+					// Parse what arrived before the failure first.
+					impl->deferred.Capture();
+					len = 0;
+					ptr = impl->input->GetPtr(len);
+				}
+			}
 			*sizein = std::min<unsigned>(size, len);
 			memcpy(buffer, ptr, *sizein);
 			impl->input->Release(*sizein);
@@ -208,6 +219,7 @@ namespace libvariant {
 		eof = false;
 		err = false;
 		errorstr.clear();
+		deferred = DeferredException();
 		yaml_parser_delete(&parser);
 		InitParser();
 	}
-- 
2.43.0


From 723955c2ff699f723cba62288230eba865a957e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:43:12 +0000
Subject: [PATCH 26/66] fix: Clear only the string it is called on

Strings are values, but assigning one variant to another shares the
storage. Clearing one of them emptied the other as well.
---
 src/Variant.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Variant.cc b/src/Variant.cc
index 9afe852..9df8ef0 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -1064,7 +1064,7 @@ namespace libvariant {
 
 		bool String::Empty(const Data *that) const { return that->s->empty(); }
 
-		void String::Clear(Data *that) const { return that->s->clear(); }
+		void String::Clear(Data *that) const { StringInit(that, ""); }
 
 		int String::Compare(const Data *that, const Data *other) const {
 			if (Comparable(that, other)) {
-- 
2.43.0


From 20537ac5ef702007008a4688bdb3b1b0440bff7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:43:20 +0000
Subject: [PATCH 27/66] fix: Do not wrap around at the largest list index

Setting or erasing the index UINT_MAX computed index + 1 as 0. Setting
emptied the list and erasing threw an error.
---
 src/Variant.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Variant.cc b/src/Variant.cc
index 9df8ef0..f0adde1 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -1160,7 +1160,7 @@ namespace libvariant {
 		void List::EraseIndex(Data *that, unsigned i) const
 		{
 			unsigned size = that->l->list.size();
-			if (i + 1 < size) {
+			if (size > 0 && i < size - 1) {
 				that->l->list.at(i).Assign(Variant::NullType);
 			} else if (i < size) {
 				that->l->list.pop_back();
@@ -1171,7 +1171,7 @@ namespace libvariant {
 			if (i < that->l->list.size()) {
 				return VariantRef(that->l->list.at(i));
 			} else if (def) {
-				that->l->list.resize(i + 1);
+				that->l->list.resize(static_cast<size_t>(i) + 1);
 				that->l->list.at(i) = *def;
 				return VariantRef(that->l->list.at(i));
 			} else {
@@ -1201,7 +1201,7 @@ namespace libvariant {
 
 		void List::SetIndex(Data *that, unsigned i, const Data *other) const {
 			if ( ! (i < that->l->list.size()) ) {
-				that->l->list.resize(i + 1);
+				that->l->list.resize(static_cast<size_t>(i) + 1);
 			}
 			other->vtable->Assign(other, VTable::GetData(&that->l->list.at(i)));
 		}
-- 
2.43.0


From 1b748a948f89581a7f055e350ff77ff86bea5c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:44:30 +0000
Subject: [PATCH 28/66] fix: Do not call blobs of different length equal

Comparing stopped at the end of the shorter blob and reported equality.
---
 src/Blob.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Blob.cc b/src/Blob.cc
index 3e12d55..b658496 100644
--- a/src/Blob.cc
+++ b/src/Blob.cc
@@ -116,6 +116,11 @@ namespace libvariant {
 				++j;
 			}
 		}
+		// Skip buffers with nothing in them, then the longer one is greater.
+		while (i < GetNumBuffers() && GetLength(i) == 0) { ++i; }
+		while (j < other->GetNumBuffers() && other->GetLength(j) == 0) { ++j; }
+		if (i < GetNumBuffers()) { return 1; }
+		if (j < other->GetNumBuffers()) { return -1; }
 		return 0;
 	}
 }
-- 
2.43.0


From 305e26e7be78f2f67c0918e6087c2f7a17e1ae48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:44:39 +0000
Subject: [PATCH 29/66] fix: Take hold of the new target before a reference
 lets go of the old

Reassigning a reference released what it referred to first. That could
free the new target, or leave the reference half changed when memory
ran out.
---
 src/Variant.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/Variant.cc b/src/Variant.cc
index f0adde1..1cb0777 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -1628,11 +1628,14 @@ namespace libvariant {
 
 		void RefInit(Data *that, const Data *other) {
 			static const Ref ref_vtable;
+			// XXX: const cast.. double ICKY!
+			Data *ref = const_cast<Data*>(other);
+			// What that refers to now may be all that keeps other alive.
+			shared_ptr<RefData> ref_data = ref->vtable->EnsureRef(ref);
 			if (that->vtable) that->vtable->Destroy(that);
 			that->vtable = &ref_vtable;
-			// XXX: const cast.. double ICKY!
-			that->ref = const_cast<Data*>(other);
-			that->ref_data = that->ref->vtable->EnsureRef(that->ref);
+			that->ref = ref;
+			that->ref_data = ref_data;
 		}
 
 		//--------------------
@@ -1933,10 +1936,11 @@ namespace libvariant {
 
 		void ProxyInit(Data *that, Data *ref, Path::const_iterator b, Path::const_iterator e) {
 			static const Proxy proxy_vtable;
+			shared_ptr<RefData> ref_data = ref->vtable->EnsureRef(ref);
+			shared_ptr<ProxyStorage> storage(new ProxyStorage(ref, b, e));
 			if (that->vtable) that->vtable->Destroy(that);
 			that->vtable = &proxy_vtable;
-			that->ref_data = ref->vtable->EnsureRef(ref);
-			shared_ptr<ProxyStorage> storage(new ProxyStorage(ref, b, e));
+			that->ref_data = ref_data;
 			that->proxy = storage.get();
 			that->storage = storage;
 		}
-- 
2.43.0


From 807006d5b323be6cfa09ea1154bbaebd651f1290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:45:41 +0000
Subject: [PATCH 30/66] fix: Read the source of an assignment before resolving
 its target

Assigning an element of a list to a new element of the same list, as in
list[5] = list[0], first grew the list and then read the source where it
no longer was.
---
 src/Variant.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Variant.cc b/src/Variant.cc
index 1cb0777..4fd0458 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -251,8 +251,12 @@ namespace libvariant {
 		// VTable 
 		//--------------------
 
-		void VTable::Assign(const Data *that, Data *other) const
-		{ that->vtable->Copy(that, VTable::GetData(other->vtable->Resolve(other))); }
+		void VTable::Assign(const Data *that, Data *other) const {
+			// Resolving other may add elements to the list that contains that.
+			Variant value;
+			that->vtable->Copy(that, VTable::GetData(&value));
+			value.vtable->Copy(&value, VTable::GetData(other->vtable->Resolve(other)));
+		}
 
 		void VTable::MakeRef(const Data *that, Data *ref) const {
 			RefInit(ref, that);
-- 
2.43.0


From 0a22f8b5062fa6dedc2629f415563c1bc46441d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:48:07 +0000
Subject: [PATCH 31/66] fix: Let exception constructors report that memory ran
 out

They build a message, which allocates, but promised not to throw. A
failed allocation while reporting an error ended the program.
---
 include/Variant/Exceptions.h | 22 +++++++++++-----------
 src/Exceptions.cc            | 22 +++++++++++-----------
 2 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/include/Variant/Exceptions.h b/include/Variant/Exceptions.h
index da59c28..45bb346 100644
--- a/include/Variant/Exceptions.h
+++ b/include/Variant/Exceptions.h
@@ -29,55 +29,55 @@ namespace libvariant {
 	/// \brief Exception thrown when a key does not exist.
 	class KeyError : public std::runtime_error {
 	public:
-		KeyError(const std::string &key) throw();
+		KeyError(const std::string &key);
 	};
 
 	/// \brief Exception thrown when internal state is corrupt.
 	class UnknownTypeError : public std::runtime_error {
 	public:
-		UnknownTypeError(VariantDefines::Type_t type) throw();
+		UnknownTypeError(VariantDefines::Type_t type);
 	};
 
 	/// \brief Exception thrown when a function expects a specific type but the action type conflicts.
 	class UnexpectedTypeError : public std::runtime_error {
 	public:
-		UnexpectedTypeError(VariantDefines::Type_t expected, VariantDefines::Type_t value) throw();
-		UnexpectedTypeError(const std::vector<VariantDefines::Type_t> &expected, VariantDefines::Type_t value) throw();
+		UnexpectedTypeError(VariantDefines::Type_t expected, VariantDefines::Type_t value);
+		UnexpectedTypeError(const std::vector<VariantDefines::Type_t> &expected, VariantDefines::Type_t value);
 	};
 
 	/// \brief Exception thrown when a function cannot convert the Variant to an acceptable type for the routine.
 	class UnableToConvertError : public std::runtime_error {
 	public:
-		UnableToConvertError(VariantDefines::Type_t sourcetype, const std::string &targettype) throw();
+		UnableToConvertError(VariantDefines::Type_t sourcetype, const std::string &targettype);
 	};
 
 	/// \brief Exception thrown when trying to index a type other than map or list.
 	class TypeNotIndexableError : public std::runtime_error {
 	public:
-		TypeNotIndexableError(VariantDefines::Type_t type) throw();
+		TypeNotIndexableError(VariantDefines::Type_t type);
 	};
 
 	/// \brief Exception thrown when attempting a numeric operation on a non numeric type.
 	class NotNumericTypeError : public std::runtime_error {
 	public:
-		NotNumericTypeError(VariantDefines::Type_t type) throw();
+		NotNumericTypeError(VariantDefines::Type_t type);
 	};
 
 	/// \brief Exception thrown from path functions
 	class BadPathError : public std::runtime_error {
 	public:
-		BadPathError(VariantDefines::Type_t type) throw();
-		BadPathError(const std::string &msg) throw();
+		BadPathError(VariantDefines::Type_t type);
+		BadPathError(const std::string &msg);
 	};
 
 	class InvalidReferenceError : public std::runtime_error {
 	public:
-		InvalidReferenceError(const std::string &msg) throw();
+		InvalidReferenceError(const std::string &msg);
 	};
 
 	class InvalidOperationError : public std::runtime_error {
 	public:
-		InvalidOperationError(VariantDefines::Type_t type, const std::string &opname) throw();
+		InvalidOperationError(VariantDefines::Type_t type, const std::string &opname);
 	};
 
 	std::ostream &operator <<(std::ostream &os, VariantDefines::Type_t type);
diff --git a/src/Exceptions.cc b/src/Exceptions.cc
index 2ffe4c2..061548f 100644
--- a/src/Exceptions.cc
+++ b/src/Exceptions.cc
@@ -73,7 +73,7 @@ namespace libvariant {
 		return oss.str();
 	}
 
-	UnknownTypeError::UnknownTypeError(VariantDefines::Type_t type) throw()
+	UnknownTypeError::UnknownTypeError(VariantDefines::Type_t type)
 		: std::runtime_error(UnknownTypeErrorMessage(type))
    	{}
 
@@ -96,12 +96,12 @@ namespace libvariant {
 		return oss.str();
 	}
 
-	UnexpectedTypeError::UnexpectedTypeError(VariantDefines::Type_t expected, VariantDefines::Type_t value) throw()
+	UnexpectedTypeError::UnexpectedTypeError(VariantDefines::Type_t expected, VariantDefines::Type_t value)
 		: std::runtime_error(UnexpectedTypeErrorMessage(expected, value))
    	{}
 
 	UnexpectedTypeError::UnexpectedTypeError(const std::vector<VariantDefines::Type_t> &expected,
-		   	VariantDefines::Type_t value) throw()
+		   	VariantDefines::Type_t value)
 		: std::runtime_error(UnexpectedTypeErrorMessage(expected, value))
 	{}
 
@@ -114,7 +114,7 @@ namespace libvariant {
 	}
 
 	UnableToConvertError::UnableToConvertError(VariantDefines::Type_t sourcetype,
-		   	const std::string &targettype) throw()
+		   	const std::string &targettype)
 		: std::runtime_error(UnableToConvertErrorMessage(sourcetype, targettype))
    	{}
 
@@ -125,7 +125,7 @@ namespace libvariant {
 		return oss.str();
 	}
 
-	TypeNotIndexableError::TypeNotIndexableError(VariantDefines::Type_t type) throw()
+	TypeNotIndexableError::TypeNotIndexableError(VariantDefines::Type_t type)
 		: std::runtime_error(TypeNotIndexableErrorMessage(type))
    	{}
 
@@ -136,7 +136,7 @@ namespace libvariant {
 		return oss.str();
 	}
 
-	NotNumericTypeError::NotNumericTypeError(VariantDefines::Type_t type) throw()
+	NotNumericTypeError::NotNumericTypeError(VariantDefines::Type_t type)
 		: std::runtime_error(NotNumericTypeErrorMessage(type))
 	{}
 
@@ -147,7 +147,7 @@ namespace libvariant {
 		return oss.str();
 	}
 
-	KeyError::KeyError(const std::string &key) throw()
+	KeyError::KeyError(const std::string &key)
 		: std::runtime_error(KeyErrorMessage(key))
 	{}
 
@@ -165,11 +165,11 @@ namespace libvariant {
 		return oss.str();
 	}
 
-	BadPathError::BadPathError(VariantDefines::Type_t type) throw()
+	BadPathError::BadPathError(VariantDefines::Type_t type)
 		: std::runtime_error(BadPathErrorMessage(type))
 	{}
 
-	BadPathError::BadPathError(const std::string &msg) throw()
+	BadPathError::BadPathError(const std::string &msg)
 		: std::runtime_error(BadPathErrorMessage(msg))
 	{}
 
@@ -180,7 +180,7 @@ namespace libvariant {
 		return oss.str();
 	}
 
-	InvalidReferenceError::InvalidReferenceError(const std::string &msg) throw()
+	InvalidReferenceError::InvalidReferenceError(const std::string &msg)
 		: std::runtime_error(InvalidReferenceErrorMessage(msg))
 	{}
 
@@ -192,7 +192,7 @@ namespace libvariant {
 		return oss.str();
 	}
 
-	InvalidOperationError::InvalidOperationError(VariantDefines::Type_t type, const std::string &opname) throw()
+	InvalidOperationError::InvalidOperationError(VariantDefines::Type_t type, const std::string &opname)
 		: std::runtime_error(InvalidOperationErrorMessage(type, opname))
 	{}
 }
-- 
2.43.0


From 6059aa9c83359716acfda43eb53d151d3c4e42a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:48:16 +0000
Subject: [PATCH 32/66] fix: Keep the old value when there is no memory for the
 new one

Assigning a string, list, map or blob discarded the old value and set
the new type before allocating. When that failed the value claimed to be
of the new type with nothing behind it, and using it crashed.
---
 src/Variant.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Variant.cc b/src/Variant.cc
index 4fd0458..b4bdc9e 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -1084,9 +1084,9 @@ namespace libvariant {
 		}
 
 		void StringInit(Data *that, const std::string &s) {
+			shared_ptr<StringStorage> storage(new StringStorage(s));
 			if (that->vtable) that->vtable->Destroy(that);
 			that->vtable = StringVTable();
-			shared_ptr<StringStorage> storage(new StringStorage(s));
 			that->s = &storage->str;
 			that->storage = storage;
 		}
@@ -1224,9 +1224,9 @@ namespace libvariant {
 		}
 
 		void ListInit(Data *that, const Variant::List &l) {
+			shared_ptr<ListStorage> storage(new ListStorage(l));
 			if (that->vtable) that->vtable->Destroy(that);
 			that->vtable = ListVTable();
-			shared_ptr<ListStorage> storage(new ListStorage(l));
 			that->l = storage.get();
 			that->storage = storage;
 		}
@@ -1350,9 +1350,9 @@ namespace libvariant {
 		}
 
 		void MapInit(Data *that, const Variant::Map &m) {
+			shared_ptr<MapStorage> storage(new MapStorage(m));
 			if (that->vtable) that->vtable->Destroy(that);
 			that->vtable = MapVTable();
-			shared_ptr<MapStorage> storage(new MapStorage(m));
 			that->m = storage.get();
 			that->storage = storage;
 		}
@@ -1415,9 +1415,9 @@ namespace libvariant {
 		}
 
 		void BlobInit(Data *that, BlobPtr blob) {
+			shared_ptr<BlobStorage> storage(new BlobStorage(blob));
 			if (that->vtable) that->vtable->Destroy(that);
 			that->vtable = BlobVTable();
-			shared_ptr<BlobStorage> storage(new BlobStorage(blob));
 			that->blob = &storage->blob;
 			that->storage = storage;
 		}
-- 
2.43.0


From a476b3921f531b8a57e53ff21e2612fb1da52dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:49:21 +0000
Subject: [PATCH 33/66] fix: Release the buffers of a blob that cannot be
 created

A blob that owns its buffers lost them when there was no memory for the
blob itself.
---
 src/Blob.cc | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/Blob.cc b/src/Blob.cc
index b658496..4845530 100644
--- a/src/Blob.cc
+++ b/src/Blob.cc
@@ -17,11 +17,21 @@ namespace libvariant {
 	shared_ptr<Blob> Blob::Create(void *ptr, unsigned len, BlobFreeFunc ffunc, void *context)
 	{
 		struct iovec iov = { ptr, len };
-		return shared_ptr<Blob>(new Blob(&iov, 1, ffunc, context));
+		return Create(&iov, 1, ffunc, context);
 	}
 
 	BlobPtr Blob::Create(struct iovec *iov, unsigned iov_len, BlobFreeFunc ffunc, void *context) {
-		return BlobPtr(new Blob(iov, iov_len, ffunc, context));
+		Blob *blob = 0;
+		try {
+			blob = new Blob(iov, iov_len, ffunc, context);
+		} catch (...) {
+			// The buffers are ours from here on.
+			if (ffunc) {
+				for (unsigned i = 0; i < iov_len; ++i) { ffunc(iov[i].iov_base, context); }
+			}
+			throw;
+		}
+		return BlobPtr(blob);
 	}
 
 	shared_ptr<Blob> Blob::CreateCopy(const void *ptr, unsigned len) {
@@ -48,7 +58,7 @@ namespace libvariant {
 			copied += iov[i].iov_len;
 		}
 		struct iovec v = { data, len };
-		return shared_ptr<Blob>(new Blob(&v, 1, MallocFree, 0));
+		return Create(&v, 1, MallocFree, 0);
 	}
 
 	shared_ptr<Blob> Blob::CreateFree(void *ptr, unsigned len) {
@@ -57,7 +67,7 @@ namespace libvariant {
 	}
 
 	BlobPtr Blob::CreateFree(struct iovec *iov, unsigned iov_len) {
-		return shared_ptr<Blob>(new Blob(iov, iov_len, MallocFree, 0));
+		return Create(iov, iov_len, MallocFree, 0);
 	}
 
 	shared_ptr<Blob> Blob::CreateReferenced(void *ptr, unsigned len) {
-- 
2.43.0


From 30da63635c1366abf87f855e0e8c073ac44e6c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:29 +0000
Subject: [PATCH 34/66] fix: Do not return cut-off text of a number when memory
 runs out

A string stream swallows a failed allocation, so AsString() returned the
digits that happened to fit.
---
 src/Variant.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Variant.cc b/src/Variant.cc
index b4bdc9e..1d2b416 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -849,6 +849,7 @@ namespace libvariant {
 
 		std::string Integer::AsString(const Data *that) const {
 			std::ostringstream oss;
+			oss.exceptions(std::ios::badbit);
 			oss << that->i;
 			return oss.str();
 		}
@@ -908,6 +909,7 @@ namespace libvariant {
 
 		std::string Unsigned::AsString(const Data *that) const {
 			std::ostringstream oss;
+			oss.exceptions(std::ios::badbit);
 			oss << that->u;
 			return oss.str();
 		}
@@ -969,6 +971,7 @@ namespace libvariant {
 
 		std::string Float::AsString(const Data *that) const {
 			std::ostringstream oss;
+			oss.exceptions(std::ios::badbit);
 			oss << that->f;
 			return oss.str();
 		}
-- 
2.43.0


From 90c5255b20df810d5bda02690ea980bcfaf61fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:08:00 +0000
Subject: [PATCH 35/66] fix: report running out of memory in the JSON parser

The results of malloc and realloc were used without a check.
---
 lib/json/JSON_parser.c | 46 +++++++++++++++++++++++++++++-------------
 src/JSONParser.cc      |  1 +
 2 files changed, 33 insertions(+), 14 deletions(-)

diff --git a/lib/json/JSON_parser.c b/lib/json/JSON_parser.c
index ebcd5d6..6b22004 100644
--- a/lib/json/JSON_parser.c
+++ b/lib/json/JSON_parser.c
@@ -308,15 +308,18 @@ push(JSON_parser jc, int mode)
     jc->top += 1;
     if (jc->depth < 0) {
         if (jc->top >= jc->stack_capacity) {
-            size_t bytes_to_allocate;
-            jc->stack_capacity *= 2;
-            bytes_to_allocate = jc->stack_capacity * sizeof(jc->static_stack[0]);
+            signed char *stack;
+            size_t bytes_to_allocate = jc->stack_capacity * 2 * sizeof(jc->static_stack[0]);
             if (jc->stack == &jc->static_stack[0]) {
-                jc->stack = (signed char*)malloc(bytes_to_allocate);
-                memcpy(jc->stack, jc->static_stack, sizeof(jc->static_stack));
+                stack = (signed char*)malloc(bytes_to_allocate);
+                if (stack == NULL) { return false; }
+                memcpy(stack, jc->static_stack, sizeof(jc->static_stack));
             } else {
-                jc->stack = (signed char*)realloc(jc->stack, bytes_to_allocate);
+                stack = (signed char*)realloc(jc->stack, bytes_to_allocate);
+                if (stack == NULL) { return false; }
             }
+            jc->stack = stack;
+            jc->stack_capacity *= 2;
         }
     } else {
         if (jc->top >= jc->depth) {
@@ -388,6 +391,9 @@ new_JSON_parser(JSON_config* config)
     JSON_config default_config;
     
     JSON_parser jc = malloc(sizeof(struct JSON_parser_struct));
+    if (jc == NULL) {
+        return NULL;
+    }
     
     memset(jc, 0, sizeof(*jc));
     
@@ -418,6 +424,10 @@ new_JSON_parser(JSON_config* config)
             jc->stack = &jc->static_stack[0];
         } else {
             jc->stack = (signed char*)malloc(jc->stack_capacity * sizeof(jc->static_stack[0]));
+            if (jc->stack == NULL) {
+                free((void*)jc);
+                return NULL;
+            }
         }
     } else {
         jc->stack_capacity = COUNTOF(jc->static_stack);
@@ -445,22 +455,30 @@ new_JSON_parser(JSON_config* config)
     return jc;
 }
 
-static void grow_parse_buffer(JSON_parser jc)
+static int grow_parse_buffer(JSON_parser jc)
 {
-    size_t bytes_to_allocate;
-    jc->parse_buffer_capacity *= 2;
-    bytes_to_allocate = jc->parse_buffer_capacity * sizeof(jc->parse_buffer[0]);
+/*
+    Double the parse buffer. Return false, with the buffer as it was, when
+    there is no memory.
+*/
+    char *buffer;
+    size_t bytes_to_allocate = jc->parse_buffer_capacity * 2 * sizeof(jc->parse_buffer[0]);
     if (jc->parse_buffer == &jc->static_parse_buffer[0]) {
-        jc->parse_buffer = (char*)malloc(bytes_to_allocate);
-        memcpy(jc->parse_buffer, jc->static_parse_buffer, jc->parse_buffer_count);
+        buffer = (char*)malloc(bytes_to_allocate);
+        if (buffer == NULL) { return false; }
+        memcpy(buffer, jc->static_parse_buffer, jc->parse_buffer_count);
     } else {
-        jc->parse_buffer = (char*)realloc(jc->parse_buffer, bytes_to_allocate);
+        buffer = (char*)realloc(jc->parse_buffer, bytes_to_allocate);
+        if (buffer == NULL) { return false; }
     }
+    jc->parse_buffer = buffer;
+    jc->parse_buffer_capacity *= 2;
+    return true;
 }
 
 #define parse_buffer_push_back_char(jc, c)\
     do {\
-        if (jc->parse_buffer_count + 1 >= jc->parse_buffer_capacity) grow_parse_buffer(jc);\
+        if (jc->parse_buffer_count + 1 >= jc->parse_buffer_capacity && !grow_parse_buffer(jc)) return false;\
         jc->parse_buffer[jc->parse_buffer_count++] = c;\
         jc->parse_buffer[jc->parse_buffer_count]   = 0;\
     } while (0)
diff --git a/src/JSONParser.cc b/src/JSONParser.cc
index 6a35e78..619dac4 100644
--- a/src/JSONParser.cc
+++ b/src/JSONParser.cc
@@ -133,6 +133,7 @@ namespace libvariant {
 		config.depth = MAX_DEPTH;
 		config.allow_comments = 1;
 		parser = new_JSON_parser(&config);
+		if (!parser) { throw std::bad_alloc(); }
 	}
 
 	void JSONParserImpl::Parse() {
-- 
2.43.0


From 7d646c039d5dc3feb7d68248ffdd1fa02412a3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:08:04 +0000
Subject: [PATCH 36/66] fix: report running out of memory while emitting
 numbers

An output string stream hides a failed allocation unless its exceptions are
enabled, so part or all of a number could be missing from the output.
---
 src/BundleHdrEmitter.cc | 3 +++
 src/JSONEmitter.cc      | 3 +++
 src/XMLPLISTEmitter.cc  | 3 +++
 src/YAMLEmitter.cc      | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/src/BundleHdrEmitter.cc b/src/BundleHdrEmitter.cc
index 0cdddfc..13a5148 100644
--- a/src/BundleHdrEmitter.cc
+++ b/src/BundleHdrEmitter.cc
@@ -94,18 +94,21 @@ namespace libvariant {
 
 	void BundleHdrEmitterImpl::Emit(intmax_t v) {
 		std::ostringstream oss;
+		oss.exceptions(std::ios::badbit);
 		oss << v;
 		Value(oss.str().c_str(), oss.str().length());
 	}
 
 	void BundleHdrEmitterImpl::Emit(uintmax_t v) {
 		std::ostringstream oss;
+		oss.exceptions(std::ios::badbit);
 		oss << v;
 		Value(oss.str().c_str(), oss.str().length());
 	}
 
 	void BundleHdrEmitterImpl::Emit(double v) {
 		std::ostringstream oss;
+		oss.exceptions(std::ios::badbit);
 		oss << std::setprecision(numeric_precision) << std::showpoint << v;
 		Value(oss.str().c_str(), oss.str().length());
 	}
diff --git a/src/JSONEmitter.cc b/src/JSONEmitter.cc
index 553285f..ec9e6aa 100644
--- a/src/JSONEmitter.cc
+++ b/src/JSONEmitter.cc
@@ -116,6 +116,7 @@ namespace libvariant {
 	void JSONEmitterImpl::Emit(intmax_t v) {
 		CheckSeparator();
 		std::ostringstream oss;
+		oss.exceptions(std::ios::badbit);
 		oss << v;
 		EmitRaw(oss.str().c_str(), oss.str().length());
 	}
@@ -123,6 +124,7 @@ namespace libvariant {
 	void JSONEmitterImpl::Emit(uintmax_t v) {
 		CheckSeparator();
 		std::ostringstream oss;
+		oss.exceptions(std::ios::badbit);
 		oss << v;
 		EmitRaw(oss.str().c_str(), oss.str().length());
 	}
@@ -130,6 +132,7 @@ namespace libvariant {
 	void JSONEmitterImpl::Emit(double v) {
 		CheckSeparator();
 		std::ostringstream oss;
+		oss.exceptions(std::ios::badbit);
 		if (strict && (std::isnan(v) || std::isinf(v))) {
 			throw std::runtime_error("JSONEmitter: The JSON specification does not permit"
 					" numeric types that cannot be represented as a series of digits.");
diff --git a/src/XMLPLISTEmitter.cc b/src/XMLPLISTEmitter.cc
index 95358ef..11ea25a 100644
--- a/src/XMLPLISTEmitter.cc
+++ b/src/XMLPLISTEmitter.cc
@@ -146,6 +146,7 @@ namespace libvariant {
 	void XMLPLISTEmitterImpl::Emit(intmax_t v) {
 		StartElement(INTEGER_NAME);
 		std::ostringstream oss;
+		oss.exceptions(std::ios::badbit);
 		oss << v;
 		WriteText(oss.str().c_str());
 		CloseElement();
@@ -154,6 +155,7 @@ namespace libvariant {
 	void XMLPLISTEmitterImpl::Emit(uintmax_t v) {
 		StartElement(INTEGER_NAME);
 		std::ostringstream oss;
+		oss.exceptions(std::ios::badbit);
 		oss << v;
 		WriteText(oss.str().c_str());
 		CloseElement();
@@ -162,6 +164,7 @@ namespace libvariant {
 	void XMLPLISTEmitterImpl::Emit(double v) {
 		StartElement(FLOAT_NAME);
 		std::ostringstream oss;
+		oss.exceptions(std::ios::badbit);
 		oss << std::setprecision(precision) << std::showpoint << v;
 		WriteText(oss.str().c_str());
 		CloseElement();
diff --git a/src/YAMLEmitter.cc b/src/YAMLEmitter.cc
index 30a689e..8bc2409 100644
--- a/src/YAMLEmitter.cc
+++ b/src/YAMLEmitter.cc
@@ -341,18 +341,21 @@ namespace libvariant {
 
 	void YAMLEmitterImpl::Emit(intmax_t v) {
 		std::ostringstream oss;
+		oss.exceptions(std::ios::badbit);
 		oss << v;
 		Emit(oss.str(), PLAIN_SCALAR_STYLE);
 	}
 
 	void YAMLEmitterImpl::Emit(uintmax_t v) {
 		std::ostringstream oss;
+		oss.exceptions(std::ios::badbit);
 		oss << v;
 		Emit(oss.str(), PLAIN_SCALAR_STYLE);
 	}
 
 	void YAMLEmitterImpl::Emit(double v) {
 		std::ostringstream oss;
+		oss.exceptions(std::ios::badbit);
 		if (v != v) {
 			oss << ".nan";
 		} else if (std::abs(v) == std::numeric_limits<double>::infinity()) {
-- 
2.43.0


From 25c27091f59efade565aaab1e1765c4f97a41330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:13:52 +0000
Subject: [PATCH 37/66] fix: do not take running out of memory for a failed
 regex match

regexec and regcomp report it with REG_ESPACE.  A number could be read as a
string, and a valid string be rejected by a pattern.
---
 src/GuessScalar.cc  | 11 +++++++++--
 src/Schema.cc       | 29 ++++++++++++++++++++++-------
 src/SchemaLoader.cc |  2 ++
 3 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/src/GuessScalar.cc b/src/GuessScalar.cc
index b956d26..c6d7d9f 100644
--- a/src/GuessScalar.cc
+++ b/src/GuessScalar.cc
@@ -7,6 +7,7 @@
 #include <regex.h>
 #include <errno.h>
 #include <limits>
+#include <new>
 #include <limits.h>
 #include <string.h>
 
@@ -72,14 +73,20 @@ namespace libvariant {
 		}
 	}
 
+	static bool MatchGuessRegex(const char *value, size_t nmatch, regmatch_t *match) {
+		int err = regexec(GetGuessRegex(), value, nmatch, match, 0);
+		if (err == REG_ESPACE) { throw std::bad_alloc(); }
+		return err == 0;
+	}
+
 	bool GuessIsString(const char *value) {
-		return regexec(GetGuessRegex(), value, 0, 0, 0) != 0;
+		return !MatchGuessRegex(value, 0, 0);
 	}
 
 	void GuessScalar(const char *value, unsigned length, const char *anchor, const char *tag,
 		   	ParserImpl *p, ParserActions *action) {
 		regmatch_t match[MATCH_MAX];
-		if (regexec(GetGuessRegex(), value, MATCH_MAX, &match[0], 0) == 0) {
+		if (MatchGuessRegex(value, MATCH_MAX, &match[0])) {
 			if (match[MATCH_NULL].rm_so != -1) {
 				action->Null(p, anchor, tag);
 			} else if (match[MATCH_TRUE].rm_so != -1) {
diff --git a/src/Schema.cc b/src/Schema.cc
index 8ff405c..bf2811b 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -31,6 +31,7 @@
 #include <string.h>
 #include <strings.h>
 #include <limits>
+#include <new>
 #include <cmath>
 #include <stdlib.h>
 
@@ -245,6 +246,20 @@ namespace libvariant {
 		}
 	}
 
+	// regcomp and regexec, except that running out of memory is not taken for
+	// a bad expression or for a string that does not match.
+	static int CompileRegex(regex_t *regex, const std::string &pattern) {
+		int err = regcomp(regex, pattern.c_str(), REG_EXTENDED | REG_NOSUB);
+		if (err == REG_ESPACE) { throw std::bad_alloc(); }
+		return err;
+	}
+
+	static bool MatchRegex(const regex_t *regex, const std::string &str) {
+		int err = regexec(regex, str.c_str(), 0, 0, 0);
+		if (err == REG_ESPACE) { throw std::bad_alloc(); }
+		return err == 0;
+	}
+
 	// Helper class for ValidateObjectProperties
 	class PatternProperty {
 	public:
@@ -253,7 +268,7 @@ namespace libvariant {
 		{
 			memset(&pattern, 0, sizeof(regex_t));
 			int err;
-			if ((err = regcomp(&pattern, key.c_str(), REG_EXTENDED | REG_NOSUB))) {
+			if ((err = CompileRegex(&pattern, key))) {
 				std::vector<char> buffer(8192);
 				regerror(err, &pattern, &buffer[0], buffer.size());
 				std::ostringstream oss;
@@ -266,7 +281,7 @@ namespace libvariant {
 			regfree(&pattern);
 		}
 		bool Test(const std::string &k) {
-			return regexec(&pattern, k.c_str(), 0, 0, 0) == 0;
+			return MatchRegex(&pattern, k);
 		}
 		Variant GetSchema() { return schema; }
 		std::string GetKey() { return key; }
@@ -510,7 +525,7 @@ namespace libvariant {
 		int err;
 		if (format == "regex") {
 			// From V3 spec
-			err = regcomp(&pattern, data.AsString().c_str(), REG_EXTENDED | REG_NOSUB);
+			err = CompileRegex(&pattern, data.AsString());
 			if (err) {
 				std::ostringstream oss;
 				oss << "String \"" << data.AsString() << "\" not a valid regular expression.";
@@ -547,7 +562,7 @@ namespace libvariant {
 			}
 
 			if (!patternstr.empty()) {
-				if ((err = regcomp(&pattern, patternstr.c_str(), REG_EXTENDED | REG_NOSUB))) {
+				if ((err = CompileRegex(&pattern, patternstr))) {
 					std::vector<char> buffer(8192);
 					regerror(err, &pattern, &buffer[0], buffer.size());
 					std::ostringstream oss;
@@ -557,7 +572,7 @@ namespace libvariant {
 					return;
 				}
 				try {
-					if (regexec(&pattern, data.AsString().c_str(), 0, 0, 0)) {
+					if (!MatchRegex(&pattern, data.AsString())) {
 						ctx.AddError("String does not match format " + format);
 					}
 				} catch (...) {
@@ -580,7 +595,7 @@ namespace libvariant {
 		memset(&pattern, 0, sizeof(regex_t));
 		std::string patternstr = schema["pattern"].AsString();
 		int err;
-		if ((err = regcomp(&pattern, patternstr.c_str(), REG_EXTENDED | REG_NOSUB))) {
+		if ((err = CompileRegex(&pattern, patternstr))) {
 			std::vector<char> buffer(8192);
 			regerror(err, &pattern, &buffer[0], buffer.size());
 			std::ostringstream oss;
@@ -590,7 +605,7 @@ namespace libvariant {
 			return;
 		}
 		try {
-			if (regexec(&pattern, data.AsString().c_str(), 0, 0, 0)) {
+			if (!MatchRegex(&pattern, data.AsString())) {
 				std::ostringstream oss;
 				oss << "String does not match pattern \""
 					<< patternstr << "\"";
diff --git a/src/SchemaLoader.cc b/src/SchemaLoader.cc
index f688427..3069e6b 100644
--- a/src/SchemaLoader.cc
+++ b/src/SchemaLoader.cc
@@ -24,6 +24,7 @@
 #include <regex.h>
 #include <stdlib.h>
 #include <stdio.h>
+#include <new>
 #include <stdexcept>
 #include <sstream>
 #include <string.h>
@@ -213,6 +214,7 @@ namespace libvariant {
 		regmatch_t match[MATCHLEN];
 		DBPRINT(std::endl << "Matching against \"" << uri << "\"\n");
 		int err = regexec(&regex.regex, uri.c_str(), MATCHLEN, &match[0], 0);
+		if (err == REG_ESPACE) { throw std::bad_alloc(); }
 		if (err != 0) { 
 			DBPRINT("Match failed\n");
 			return false;
-- 
2.43.0


From 7d8275190dd27b42aa435515a967ebf5f5c8dcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:17:05 +0000
Subject: [PATCH 38/66] fix: keep exceptions out of libcurl's write callback

Running out of memory while collecting a fetched schema threw through C code.
---
 src/SchemaLoader.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/SchemaLoader.cc b/src/SchemaLoader.cc
index 3069e6b..1eb70ec 100644
--- a/src/SchemaLoader.cc
+++ b/src/SchemaLoader.cc
@@ -548,7 +548,10 @@ namespace libvariant {
 	};
 
 	size_t CurlContextWrite(char *ptr, size_t size, size_t nmemb, void *userdata) {
-		return ((CurlContext*)userdata)->Write(ptr, size*nmemb);
+		// An exception must not pass through libcurl; a short count makes the
+		// transfer fail.
+		try { return ((CurlContext*)userdata)->Write(ptr, size*nmemb); }
+		catch (...) { return 0; }
 	}
 
 	bool AdvSchemaLoader::LoadFromCurl(URIInfo &info, LoaderError &error) {
-- 
2.43.0


From 6f4c8af611bc577a7f3f0e2a7e61e1d313e64e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:18:01 +0000
Subject: [PATCH 39/66] fix: do not leave an input file open when its buffer
 cannot be allocated

---
 src/ParserInput.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ParserInput.cc b/src/ParserInput.cc
index 5611884..cd86891 100644
--- a/src/ParserInput.cc
+++ b/src/ParserInput.cc
@@ -135,8 +135,9 @@ namespace libvariant {
 	// ParserFilenameInput
 
 	ParserFilenameInput::ParserFilenameInput(const char *filename, const char *mode)
-		: ParserFileInput(fopen(filename, mode))
+		: ParserFileInput(0)
 	{
+		file = fopen(filename, mode);
 		if (!file) {
 			std::ostringstream oss;
 			oss << "Unable to open " << filename;
-- 
2.43.0


From 83ad6eb242b28724ee916cbead32920c246e68d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:18:10 +0000
Subject: [PATCH 40/66] fix: refuse a multipleOf of zero

The integer remainder by zero ended the process.
---
 src/Schema.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index bf2811b..b50ace4 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -714,7 +714,7 @@ namespace libvariant {
 		}
 		AutoSchemaPath spath(ctx, multkey);
 		Variant multipleof = schema[multkey];
-		if (!multipleof.IsNumber() || multipleof < 0) {
+		if (!multipleof.IsNumber() || multipleof <= 0) {
 			std::ostringstream oss;
 			oss << "\"" << multkey << "\" must be a positive number";
 			ctx.AddSchemaError(oss.str());
-- 
2.43.0


From c6dae302cedae3dfcaaa35f8634dd2f82cfdc69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:18:16 +0000
Subject: [PATCH 41/66] fix: release the transfer handle when setting it up
 fails

---
 src/SchemaLoader.cc | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/SchemaLoader.cc b/src/SchemaLoader.cc
index 1eb70ec..b5cbce2 100644
--- a/src/SchemaLoader.cc
+++ b/src/SchemaLoader.cc
@@ -502,22 +502,30 @@ namespace libvariant {
 	public:
 
 		CurlContext(SchemaLoader::URIInfo &info)
-			: self(curl_easy_init())
+			: self(0),
+			uri(info.protocol + info.authority + info.pathname + info.search)
 	   	{
+			self = curl_easy_init();
 			if (!self) {
 				std::ostringstream oss;
 				oss << "Unable to initialize curl to fetch uri: " << info.href;
 				throw std::runtime_error(oss.str());
 			}
 			CURLcode err = curl_easy_setopt(self, CURLOPT_NOSIGNAL, 1);
-			if (err != CURLE_OK) { Error(err); }
-			err = curl_easy_setopt(self, CURLOPT_WRITEFUNCTION, &CurlContextWrite);
-			if (err != CURLE_OK) { Error(err); }
-			err = curl_easy_setopt(self, CURLOPT_WRITEDATA, (void*)this);
-			if (err != CURLE_OK) { Error(err); }
-			uri = info.protocol + info.authority + info.pathname + info.search;
-			err = curl_easy_setopt(self, CURLOPT_URL, uri.c_str());
-			if (err != CURLE_OK) { Error(err); }
+			if (err == CURLE_OK) {
+				err = curl_easy_setopt(self, CURLOPT_WRITEFUNCTION, &CurlContextWrite);
+			}
+			if (err == CURLE_OK) {
+				err = curl_easy_setopt(self, CURLOPT_WRITEDATA, (void*)this);
+			}
+			if (err == CURLE_OK) {
+				err = curl_easy_setopt(self, CURLOPT_URL, uri.c_str());
+			}
+			if (err != CURLE_OK) {
+				// The destructor does not run for an unfinished object
+				curl_easy_cleanup(self);
+				Error(err);
+			}
 		}
 
 		~CurlContext() {
-- 
2.43.0


From 271f433a2df06a4de9e272ba527675c215d25c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:20:46 +0000
Subject: [PATCH 42/66] fix: report running out of memory while forming paths

An output string stream hides a failed allocation unless its exceptions are
enabled, so path strings, pointers and flattened keys could be cut short.
---
 src/Extensions.cc   | 4 ++++
 src/Path.cc         | 1 +
 src/SchemaLoader.cc | 1 +
 3 files changed, 6 insertions(+)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index 35eb6a1..d82b6bf 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -130,6 +130,7 @@ namespace libvariant {
 			} else {
 				for( unsigned i=0; i < var.Size(); ++i ) {
 					stringstream tmp;
+					tmp.exceptions(std::ios::badbit);
 					if ( prefix.size() ) {
 						tmp << prefix;
 					}
@@ -143,6 +144,7 @@ namespace libvariant {
 		case Variant::MapType:
 			for( Variant::ConstMapIterator i(var.MapBegin()), e(var.MapEnd()); i != e; ++i ) {
 				stringstream tmp;
+				tmp.exceptions(std::ios::badbit);
 				if ( prefix.size() ) {
 					tmp << prefix + params["pathDelimiter"].AsString();
 				} else {
@@ -191,6 +193,7 @@ namespace libvariant {
 
 		for ( Variant::MapIterator i(flat.MapBegin()), e(flat.MapEnd()); i != e; ++i ) {
 			stringstream tmp;
+			tmp.exceptions(std::ios::badbit);
 
 			switch (i->second.GetType()) {
 			case Variant::ListType:
@@ -573,6 +576,7 @@ namespace libvariant {
 
 	std::string FormJSONPointer(const Path &path) {
 		std::ostringstream ret;
+		ret.exceptions(std::ios::badbit);
 		for (Path::const_iterator i(path.begin()), e(path.end()); i != e; ++i) {
 			if (i->IsNumber()) {
 				ret << "/" << i->AsUnsigned();
diff --git a/src/Path.cc b/src/Path.cc
index beceffe..678aa06 100644
--- a/src/Path.cc
+++ b/src/Path.cc
@@ -81,6 +81,7 @@ namespace libvariant {
 	std::string PathString(const Path &path) {
 		if (path.empty()) { return "/"; }
 		std::ostringstream oss;
+		oss.exceptions(std::ios::badbit);
 		for (Path::const_iterator i(path.begin()), e(path.end()); i != e; ++i) {
 			if (i->IsString()) {
 				std::string fragment = i->AsString();
diff --git a/src/SchemaLoader.cc b/src/SchemaLoader.cc
index b5cbce2..3ad5b17 100644
--- a/src/SchemaLoader.cc
+++ b/src/SchemaLoader.cc
@@ -312,6 +312,7 @@ namespace libvariant {
 			}
 		}
 		std::ostringstream oss;
+		oss.exceptions(std::ios::badbit);
 		for (std::vector<std::string>::iterator iv(output.begin()), ie(output.end()); iv != ie; ++iv) {
 			if (firstslash) {
 				oss << "/";
-- 
2.43.0


From c60ab8ff0b01b8ed963861760503d1ca3054ad97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:03:17 +0000
Subject: [PATCH 43/66] fix: remove list elements by JSON pointer and refuse
 indices past the end

Removing a list element through a JSON pointer looked the index up as a map
key and always failed.  Adding past the end of a list wrote outside of it, and
large indices were cut to 32 bits and found another element.
---
 src/Extensions.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index d82b6bf..93c3a54 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -434,6 +434,9 @@ namespace libvariant {
 			if (!IsIndex(component, index)) {
 				throw std::runtime_error("Attempting to index an array with a string");
 			}
+			if (index > v.Size() || (index == v.Size() && !(is_last && op.op == OP_ADD))) {
+				throw std::runtime_error("Attempting to reference past the end of an array");
+			}
 			op.path.push_back(index);
 			if (is_last) {
 				switch (op.op) {
@@ -446,8 +449,8 @@ namespace libvariant {
 					op.success = true;
 					return v.At(index);
 				case OP_REMOVE:
-					op.value = v.At(component);
-					v.Erase(index);
+					op.value = v.Get(index);
+					v.AsList().erase(v.ListBegin()+index);
 					op.success = true;
 					return v.At(index);
 				case OP_TEST:
-- 
2.43.0


From 066ea7ab6b4601a551a53dcc75f3dfc611ca54cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:05:24 +0000
Subject: [PATCH 44/66] fix: take back failed JSON patches and moves completely

The undo log re-inserted replaced list elements, erased inserted ones by
setting them to null, recorded a replacement after overwriting the old value,
and could itself fail.  Patches also left the document sharing storage with
the patch, and copies sharing storage with their source, so that later steps
changed both.
---
 src/Extensions.cc | 272 +++++++++++++++++++++++++++-------------------
 1 file changed, 161 insertions(+), 111 deletions(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index 93c3a54..b9b99a4 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -313,23 +313,43 @@ namespace libvariant {
 	enum Operations_e {
 		OP_ADD,
 		OP_REMOVE,
+		OP_REPLACE,
 		OP_TEST,
 		OP_GET
 	};
 
+	/// How to take back one modification. Taking it back must not fail,
+	/// so everything it needs is acquired before the modification.
+	struct Undo_t {
+		enum Kind_e {
+			NOTHING, // No modification was made
+			ROOT,    // The whole document was replaced
+			SET,     // An element was replaced
+			INSERTED,
+			REMOVED
+		};
+		Undo_t() : kind(NOTHING), index(0) {}
+
+		Kind_e kind;
+		Variant container; // The list or map that was modified
+		std::string key;   // The element of it
+		unsigned index;
+		Variant value;     // What was there before
+		Variant::Map entry; // The removed element of a map
+	};
+
 	struct Operation_t {
-		Operation_t() {}
-		Operation_t(Operations_e o, const std::string &p)
-		   	: op(o), success(false), guess(false), replaced(false), pointer(p) {}
+		Operation_t() : undo(0) {}
+		Operation_t(Operations_e o, const std::string &p, Undo_t *u = 0)
+		   	: op(o), success(false), guess(false), pointer(p), undo(u) {}
 
 		Operations_e op;
 		Path path; // path that modification /starts at/
 		Variant value;
-		Variant old_value;
 		bool success;
 		bool guess;
-		bool replaced;
 		std::string pointer;
+		Undo_t *undo; // filled in by a modification, may be null
 	};
 
 	static bool IsIndex(const std::string &str, uintmax_t &index) {
@@ -346,17 +366,22 @@ namespace libvariant {
 	VariantRef JSONPointerOp(const std::string &pointer, VariantRef v, Operation_t &op) {
 		if (pointer.empty()) {
 			switch (op.op) {
-			case OP_ADD:
-				if (v.Exists()) {
-					op.replaced = true;
-					op.old_value = v;
+			case OP_REPLACE:
+				if (!v.Exists()) {
+					throw std::runtime_error("The target does not exist");
 				}
+				// fall through
+			case OP_ADD:
+				if (op.undo && v.Exists()) { op.undo->value = v; }
 				v = op.value;
+				if (op.undo) { op.undo->kind = Undo_t::ROOT; }
 				op.success = true;
 				return v;
 			case OP_REMOVE:
 				op.value = v;
+				if (op.undo) { op.undo->value = op.value; }
 				v = Variant::NullType;
+				if (op.undo) { op.undo->kind = Undo_t::ROOT; }
 				op.success = true;
 				return v;
 			case OP_TEST:
@@ -391,18 +416,48 @@ namespace libvariant {
 			if (is_last) {
 				switch (op.op) {
 				case OP_ADD:
-					if (v.Contains(component)) {
-						op.replaced = true;
-						op.old_value = v.Get(component);
+				case OP_REPLACE:
+					{
+						Variant::Map &m = v.AsMap();
+						Variant::MapIterator i = m.find(component);
+						bool exists = (i != m.end());
+						if (!exists && op.op == OP_REPLACE) {
+							throw std::runtime_error("The target does not exist");
+						}
+						if (op.undo) {
+							op.undo->container = v;
+							op.undo->key = component;
+							if (exists) { op.undo->value = i->second; }
+						}
+						v.Set(component, op.value);
+						if (op.undo) { op.undo->kind = exists ? Undo_t::SET : Undo_t::INSERTED; }
+						op.success = true;
+						return v;
 					}
-					v.Set(component, op.value);
-					op.success = true;
-					return v.At(component);
 				case OP_REMOVE:
-					op.value = v.At(component);
-					v.Erase(component);
-					op.success = true;
-					return v.At(component);
+					{
+						Variant::Map &m = v.AsMap();
+						Variant::MapIterator i = m.find(component);
+						if (i == m.end()) {
+							throw std::runtime_error("The target does not exist");
+						}
+						op.value = i->second;
+						if (op.undo) {
+							op.undo->container = v;
+							op.undo->key = component;
+#if __cplusplus >= 201703L
+							op.undo->entry.insert(m.extract(i));
+#else
+							op.undo->entry.insert(*i);
+							m.erase(i);
+#endif
+							op.undo->kind = Undo_t::REMOVED;
+						} else {
+							m.erase(i);
+						}
+						op.success = true;
+						return v;
+					}
 				case OP_TEST:
 					{
 						VariantRef ret = v.At(component);
@@ -424,9 +479,14 @@ namespace libvariant {
 			if (is_last && component == "-") {
 				op.path.push_back(v.Size());
 				if (op.op == OP_ADD) {
+					if (op.undo) {
+						op.undo->container = v;
+						op.undo->index = v.Size();
+					}
 					v.Append(op.value);
+					if (op.undo) { op.undo->kind = Undo_t::INSERTED; }
 					op.success = true;
-					return v.At(v.Size());
+					return v;
 				}
 				throw std::runtime_error("Attempting to reference past the end of an array");
 			}
@@ -439,20 +499,29 @@ namespace libvariant {
 			}
 			op.path.push_back(index);
 			if (is_last) {
+				if (op.undo) {
+					op.undo->container = v;
+					op.undo->index = index;
+				}
 				switch (op.op) {
 				case OP_ADD:
-					if (v.Contains(index)) {
-						op.old_value = v.Get(index);
-						op.replaced = true;
-					}
 					v.AsList().insert(v.ListBegin()+index, op.value);
+					if (op.undo) { op.undo->kind = Undo_t::INSERTED; }
 					op.success = true;
-					return v.At(index);
+					return v;
 				case OP_REMOVE:
 					op.value = v.Get(index);
+					if (op.undo) { op.undo->value = op.value; }
 					v.AsList().erase(v.ListBegin()+index);
+					if (op.undo) { op.undo->kind = Undo_t::REMOVED; }
+					op.success = true;
+					return v;
+				case OP_REPLACE:
+					if (op.undo) { op.undo->value = v.Get(index); }
+					v.Set(index, op.value);
+					if (op.undo) { op.undo->kind = Undo_t::SET; }
 					op.success = true;
-					return v.At(index);
+					return v;
 				case OP_TEST:
 					{
 						VariantRef ret = v.At(index);
@@ -505,13 +574,10 @@ namespace libvariant {
 	}
 
 	void JSONPointerReplace(const std::string &pointer, VariantRef v, Variant data) {
-		Operation_t op(OP_GET, pointer);
+		Operation_t op(OP_REPLACE, pointer);
+		op.value = data;
 		try {
-			if (JSONPointerOp(op.pointer, v, op).Exists()) {
-				v.SetPath(op.path, data);
-			} else {
-				throw std::runtime_error("The target does not exist");
-			}
+			JSONPointerOp(op.pointer, v, op);
 		} catch (const std::exception &e) {
 			std::ostringstream oss;
 			oss << "Error replacing a value with the JSON Pointer \""
@@ -521,21 +587,55 @@ namespace libvariant {
 		}
 	}
 
+	/// Take back a modification of v, which was the last one.
+	static void JSONPointerUndo(VariantRef &v, Undo_t &u) {
+		switch (u.kind) {
+		case Undo_t::NOTHING:
+			break;
+		case Undo_t::ROOT:
+			v = u.value;
+			break;
+		case Undo_t::SET:
+			if (u.container.IsList()) {
+				u.container.AsList()[u.index] = u.value;
+			} else {
+				u.container.AsMap().find(u.key)->second = u.value;
+			}
+			break;
+		case Undo_t::INSERTED:
+			if (u.container.IsList()) {
+				u.container.AsList().erase(u.container.ListBegin() + u.index);
+			} else {
+				u.container.AsMap().erase(u.key);
+			}
+			break;
+		case Undo_t::REMOVED:
+			if (u.container.IsList()) {
+				// The list still has the capacity for the element.
+				u.container.AsList().insert(u.container.ListBegin() + u.index, u.value);
+			} else {
+#if __cplusplus >= 201703L
+				u.container.AsMap().insert(u.entry.extract(u.entry.begin()));
+#else
+				u.container.AsMap().insert(*u.entry.begin());
+#endif
+			}
+			break;
+		}
+		u.kind = Undo_t::NOTHING;
+	}
+
 	void JSONPointerMove(const std::string &src, const std::string &dst, VariantRef v) {
-		Operation_t op(OP_REMOVE, src);
+		Undo_t undo;
+		Operation_t op(OP_REMOVE, src, &undo);
 		try {
 			JSONPointerOp(op.pointer, v, op);
 			Variant data = op.value;
-			Path path = op.path;
-			try {
-				op = Operation_t(OP_ADD, dst);
-				op.value = data;
-				JSONPointerOp(op.pointer, v, op);
-			} catch (const std::exception &e) {
-				v.SetPath(path, data);
-				throw e;
-			}
+			op = Operation_t(OP_ADD, dst);
+			op.value = data;
+			JSONPointerOp(op.pointer, v, op);
 		} catch (const std::exception &e) {
+			JSONPointerUndo(v, undo);
 			std::ostringstream oss;
 			oss << "Error moving a value with the JSON Pointer \""
 				<< op.pointer << "\" at path \""
@@ -590,102 +690,52 @@ namespace libvariant {
 		return ret.str();
 	}
 
-	struct Patch_t {
-		Patch_t(Operations_e o, Path p, Variant v) : op(o), path(p), value(v) {}
-		Patch_t(Operations_e o, Path p) : op(o), path(p) {}
-		Operations_e op;
-		Path path;
-		Variant value;
-	};
-
-	void JSONPatchUndo(VariantRef v, std::deque<Patch_t> *undo) {
+	static void JSONPatchUndo(VariantRef &v, std::deque<Undo_t> *undo) {
 		while (!undo->empty()) {
-			const Patch_t &p = undo->back();
-			switch (p.op) {
-			case OP_ADD:
-				{
-					Path path = p.path;
-					if (path.size() > 0) {
-						PathElement elem = path.back();
-						path.pop_back();
-						VariantRef r = v.AtPath(path);
-						if (r.IsList()) {
-							r.AsList().insert(r.ListBegin()+elem.AsUnsigned(), p.value);
-						} else {
-							r.Set(elem.AsString(), p.value);
-						}
-					} else {
-						v = p.value;
-					}
-				}
-				break;
-			case OP_REMOVE:
-				v.ErasePath(p.path);
-				break;
-			case OP_TEST:
-			case OP_GET:
-				throw std::runtime_error("Unable to perform operation here");
-			}
+			JSONPointerUndo(v, undo->back());
 			undo->pop_back();
 		}
 	}
 
+	static Undo_t *NewUndo(std::deque<Undo_t> *undo) {
+		undo->push_back(Undo_t());
+		return &undo->back();
+	}
 
-	bool JSONPatchOp(VariantRef v, const Variant &diff, std::deque<Patch_t> *undo) {
+	bool JSONPatchOp(VariantRef v, const Variant &diff, std::deque<Undo_t> *undo) {
 		std::string oper = diff.Get("op").AsString();
 		Operation_t op;
 		try {
 			if (oper == "add") {
-				op = Operation_t(OP_ADD, diff.Get("path").AsString());
-				op.value = diff.Get("value");
+				op = Operation_t(OP_ADD, diff.Get("path").AsString(), NewUndo(undo));
+				// The document must not share storage with the patch.
+				op.value = diff.Get("value").Copy();
 				JSONPointerOp(op.pointer, v, op);
-				if (op.replaced) {
-					undo->push_back(Patch_t(OP_ADD, op.path, op.old_value));
-				} else {
-					undo->push_back(Patch_t(OP_REMOVE, op.path));
-				}
 				return op.success;
 			} else if (oper == "remove") {
-				op = Operation_t(OP_REMOVE, diff.Get("path").AsString());
+				op = Operation_t(OP_REMOVE, diff.Get("path").AsString(), NewUndo(undo));
 				JSONPointerOp(op.pointer, v, op);
-				undo->push_back(Patch_t(OP_ADD, op.path, op.value));
 				return op.success;
 			} else if (oper == "replace") {
-				op = Operation_t(OP_GET, diff.Get("path").AsString());
-				VariantRef r = JSONPointerOp(op.pointer, v, op);
-				if (r.Exists()) {
-					r = diff.Get("value");
-				} else {
-					return false;
-				}
-				undo->push_back(Patch_t(OP_ADD, op.path, op.value));
+				op = Operation_t(OP_REPLACE, diff.Get("path").AsString(), NewUndo(undo));
+				op.value = diff.Get("value").Copy();
+				JSONPointerOp(op.pointer, v, op);
 				return op.success;
 			} else if (oper == "move") {
-				op = Operation_t(OP_REMOVE, diff.Get("from").AsString());
+				op = Operation_t(OP_REMOVE, diff.Get("from").AsString(), NewUndo(undo));
 				JSONPointerOp(op.pointer, v, op);
 				Variant data = op.value;
-				undo->push_back(Patch_t(OP_ADD, op.path, data));
-				op = Operation_t(OP_ADD, diff.Get("path").AsString());
+				op = Operation_t(OP_ADD, diff.Get("path").AsString(), NewUndo(undo));
 				op.value = data;
 				JSONPointerOp(op.pointer, v, op);
-				if (op.replaced) {
-					undo->push_back(Patch_t(OP_ADD, op.path, op.old_value));
-				} else {
-					undo->push_back(Patch_t(OP_REMOVE, op.path));
-				}
 				return op.success;
 			} else if (oper == "copy") {
 				op = Operation_t(OP_GET, diff.Get("from").AsString());
 				JSONPointerOp(op.pointer, v, op);
-				Variant data = op.value;
-				op = Operation_t(OP_ADD, diff.Get("path").AsString());
+				Variant data = op.value.Copy();
+				op = Operation_t(OP_ADD, diff.Get("path").AsString(), NewUndo(undo));
 				op.value = data;
 				JSONPointerOp(op.pointer, v, op);
-				if (op.replaced) {
-					undo->push_back(Patch_t(OP_ADD, op.path, op.old_value));
-				} else {
-					undo->push_back(Patch_t(OP_REMOVE, op.path));
-				}
 				return op.success;
 			} else if (oper == "test") {
 				op = Operation_t(OP_TEST, diff.Get("path").AsString());
@@ -703,7 +753,7 @@ namespace libvariant {
 	}
 
 	std::pair<bool, std::string> JSONPatch(VariantRef v, const Variant &diff) {
-		std::deque<Patch_t> undo;
+		std::deque<Undo_t> undo;
 		try {
 			bool success = true;
 			if (diff.IsList()) {
-- 
2.43.0


From b4927854a8dc531e8f9eb70460284ac24500e809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:05:30 +0000
Subject: [PATCH 45/66] fix: escape keys in JSON pointers

Keys containing '~' or '/' gave a pointer to another element, so that a diff
touching them could not be applied.
---
 src/Extensions.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index b9b99a4..bc280ae 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -677,6 +677,18 @@ namespace libvariant {
 		}
 	}
 
+	static std::string JSONPointerEscape(const std::string &key) {
+		std::string ret;
+		for (std::string::const_iterator i(key.begin()), e(key.end()); i != e; ++i) {
+			switch (*i) {
+			case '~': ret.append("~0"); break;
+			case '/': ret.append("~1"); break;
+			default: ret.append(1, *i); break;
+			}
+		}
+		return ret;
+	}
+
 	std::string FormJSONPointer(const Path &path) {
 		std::ostringstream ret;
 		ret.exceptions(std::ios::badbit);
@@ -684,7 +696,7 @@ namespace libvariant {
 			if (i->IsNumber()) {
 				ret << "/" << i->AsUnsigned();
 			} else {
-				ret << "/" << i->AsString();
+				ret << "/" << JSONPointerEscape(i->AsString());
 			}
 		}
 		return ret.str();
-- 
2.43.0


From 9ad24affbebaafa02242dc11782975cec9346afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:05:36 +0000
Subject: [PATCH 46/66] fix: remove surplus list elements from the end in
 JSONDiff

The removals were listed in ascending order, but each one moves the elements
after it, so that the diff could not be applied.
---
 src/Extensions.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index bc280ae..8f65a9b 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -819,12 +819,23 @@ namespace libvariant {
 			switch (src.GetType()) {
 			case Variant::ListType:
 				{
-					uintmax_t len = std::max<uintmax_t>(src.Size(), dst.Size());
+					uintmax_t len = std::min<uintmax_t>(src.Size(), dst.Size());
 					for (uintmax_t i = 0; i < len; ++i) {
 						path.push_back(PathElement(i));
 							JSONDiffRef(src.At(i), dst.At(i), diff, path);
 						path.pop_back();
 					}
+					// Removing an element moves the ones after it.
+					for (uintmax_t i = src.Size(); i > len; --i) {
+						path.push_back(PathElement(i - 1));
+							JSONDiffRef(src.At(i - 1), dst.At(i - 1), diff, path);
+						path.pop_back();
+					}
+					for (uintmax_t i = len; i < dst.Size(); ++i) {
+						path.push_back(PathElement(i));
+							JSONDiffRef(src.At(i), dst.At(i), diff, path);
+						path.pop_back();
+					}
 				}
 				break;
 			case Variant::MapType:
-- 
2.43.0


From 544526299e6592ec17b9125e99742b8c8d6c28e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:16:42 +0000
Subject: [PATCH 47/66] fix: normalise schema addresses that carry a fragment

---
 src/SchemaLoader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SchemaLoader.cc b/src/SchemaLoader.cc
index 3ad5b17..3d75736 100644
--- a/src/SchemaLoader.cc
+++ b/src/SchemaLoader.cc
@@ -128,7 +128,7 @@ namespace libvariant {
 		std::string::size_type hashIndex = uri.find("#");
 		if (hashIndex != std::string::npos) {
 			fragment = uri.substr(hashIndex + 1);
-			baseuri = uri.substr(0, hashIndex);
+			baseuri = ResolveURI(uri.substr(0, hashIndex), "");
 		}
 		iter = schemas.find(baseuri);
 		if (iter == schemas.end()) {
-- 
2.43.0


From 5dca786e2d63d8c0ade9db03c4c393c66559872d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:17:56 +0000
Subject: [PATCH 48/66] fix: do not take a document that is no schema for one
 that allows everything

---
 src/SchemaLoader.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/SchemaLoader.cc b/src/SchemaLoader.cc
index 3d75736..89ee4e4 100644
--- a/src/SchemaLoader.cc
+++ b/src/SchemaLoader.cc
@@ -455,6 +455,14 @@ namespace libvariant {
 		return SchemaLoader::HandleMissing(uri, error);
 	}
 
+	// Anything else would be taken for a schema that allows everything.
+	static Variant CheckSchema(Variant schema) {
+		if (!schema.IsMap()) {
+			throw std::runtime_error("The document is not a schema.");
+		}
+		return schema;
+	}
+
 	bool AdvSchemaLoader::LoadFromFile(URIInfo &info, LoaderError &error) {
 		// Normalize the path..
 		std::string path;
@@ -475,7 +483,7 @@ namespace libvariant {
 		if (path[0] == '/') {
 			// Absolute path
 			try {
-				AddSchema(info.href, DeserializeGuessFile(path.c_str()));
+				AddSchema(info.href, CheckSchema(DeserializeGuessFile(path.c_str())));
 				return true;
 			} catch (const std::exception &e) {
 				error.AddError(path.c_str(), e.what());
@@ -486,7 +494,7 @@ namespace libvariant {
 		for (std::vector<std::string>::iterator i(paths.begin()), e(paths.end()); i != e; ++i) {
 			std::string uri = *i + "/" + path;
 			try {
-				AddSchema(info.href, DeserializeGuessFile(uri.c_str()));
+				AddSchema(info.href, CheckSchema(DeserializeGuessFile(uri.c_str())));
 				return true;
 			} catch (const std::exception &e) {
 				error.AddError(uri, e.what());
@@ -567,7 +575,7 @@ namespace libvariant {
 		try {
 			CurlContext ctx(info);
 			ctx.Perform();
-			AddSchema(ctx.uri, DeserializeGuess(&ctx.data_buff[0], ctx.data_buff.size()));
+			AddSchema(ctx.uri, CheckSchema(DeserializeGuess(&ctx.data_buff[0], ctx.data_buff.size())));
 			return true;
 		} catch (const std::exception &e) {
 			error.AddError(info.href, e.what());
-- 
2.43.0


From aefd2c4f8c4d32c71db8b818006a5208df59a836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:18:01 +0000
Subject: [PATCH 49/66] fix: do not use the text of an HTTP error reply as a
 schema

---
 src/SchemaLoader.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/SchemaLoader.cc b/src/SchemaLoader.cc
index 89ee4e4..789ee9b 100644
--- a/src/SchemaLoader.cc
+++ b/src/SchemaLoader.cc
@@ -521,6 +521,10 @@ namespace libvariant {
 				throw std::runtime_error(oss.str());
 			}
 			CURLcode err = curl_easy_setopt(self, CURLOPT_NOSIGNAL, 1);
+			if (err == CURLE_OK) {
+				// The text of an error page is not the schema
+				err = curl_easy_setopt(self, CURLOPT_FAILONERROR, 1);
+			}
 			if (err == CURLE_OK) {
 				err = curl_easy_setopt(self, CURLOPT_WRITEFUNCTION, &CurlContextWrite);
 			}
-- 
2.43.0


From 8bcaa0c2f6ec82fbf4205a9424029d63e5c62113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:42:08 +0000
Subject: [PATCH 50/66] fix: compare values in JSONDiff without making
 references to them

Making a reference to a value stores data in it, so that comparing the same
constant value from two threads was a data race.
---
 src/Extensions.cc | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index 8f65a9b..0d91922 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -788,8 +788,8 @@ namespace libvariant {
 		}
 	}
 
-	void JSONDiffRef(VariantRef src, VariantRef dst, VariantRef diff, Path &path) {
-		if (!dst.Exists()) {
+	void JSONDiffRef(const Variant *src, const Variant *dst, Variant &diff, Path &path) {
+		if (!dst || !dst->Exists()) {
 			diff.Append(
 					Variant()
 					.Set("op", "remove")
@@ -797,43 +797,43 @@ namespace libvariant {
 					);
 			return;
 		}
-		if (!src.Exists()) {
+		if (!src || !src->Exists()) {
 			diff.Append(
 					Variant()
 					.Set("op", "add")
 					.Set("path", FormJSONPointer(path))
-					.Set("value", dst)
+					.Set("value", *dst)
 					);
 			return;
 		}
-		if (src.GetType() != dst.GetType()) {
+		if (src->GetType() != dst->GetType()) {
 			diff.Append(
 					Variant()
 					.Set("op", "replace")
 					.Set("path", FormJSONPointer(path))
-					.Set("value", dst)
+					.Set("value", *dst)
 					);
 			return;
 		}
-		if (src != dst) {
-			switch (src.GetType()) {
+		if (*src != *dst) {
+			switch (src->GetType()) {
 			case Variant::ListType:
 				{
-					uintmax_t len = std::min<uintmax_t>(src.Size(), dst.Size());
+					uintmax_t len = std::min<uintmax_t>(src->Size(), dst->Size());
 					for (uintmax_t i = 0; i < len; ++i) {
 						path.push_back(PathElement(i));
-							JSONDiffRef(src.At(i), dst.At(i), diff, path);
+							JSONDiffRef(&src->At(i), &dst->At(i), diff, path);
 						path.pop_back();
 					}
 					// Removing an element moves the ones after it.
-					for (uintmax_t i = src.Size(); i > len; --i) {
+					for (uintmax_t i = src->Size(); i > len; --i) {
 						path.push_back(PathElement(i - 1));
-							JSONDiffRef(src.At(i - 1), dst.At(i - 1), diff, path);
+							JSONDiffRef(&src->At(i - 1), 0, diff, path);
 						path.pop_back();
 					}
-					for (uintmax_t i = len; i < dst.Size(); ++i) {
+					for (uintmax_t i = len; i < dst->Size(); ++i) {
 						path.push_back(PathElement(i));
-							JSONDiffRef(src.At(i), dst.At(i), diff, path);
+							JSONDiffRef(0, &dst->At(i), diff, path);
 						path.pop_back();
 					}
 				}
@@ -842,15 +842,16 @@ namespace libvariant {
 				{
 					std::set<std::string> keys;
 					Variant::ConstMapIterator i, e;
-					for (i = dst.MapBegin(), e = dst.MapEnd(); i != e; ++i) {
+					for (i = dst->MapBegin(), e = dst->MapEnd(); i != e; ++i) {
 						keys.insert(i->first);
 					}
-					for (i = src.MapBegin(), e = src.MapEnd(); i != e; ++i) {
+					for (i = src->MapBegin(), e = src->MapEnd(); i != e; ++i) {
 						keys.insert(i->first);
 					}
 					for (std::set<std::string>::iterator i(keys.begin()), e(keys.end()); i != e; ++i) {
 						path.push_back(PathElement(*i));
-						JSONDiffRef(src.At(*i), dst.At(*i), diff, path);
+						JSONDiffRef(src->Contains(*i) ? &src->At(*i) : 0,
+								dst->Contains(*i) ? &dst->At(*i) : 0, diff, path);
 						path.pop_back();
 					}
 				}
@@ -860,7 +861,7 @@ namespace libvariant {
 						Variant()
 						.Set("op", "replace")
 						.Set("path", FormJSONPointer(path))
-						.Set("value", dst)
+						.Set("value", *dst)
 						);
 				break;
 			}
@@ -870,7 +871,7 @@ namespace libvariant {
 	Variant JSONDiff(const Variant &src, const Variant &dst) {
 		Path path;
 		Variant diff = Variant::ListType;
-		JSONDiffRef(src, dst, diff, path);
+		JSONDiffRef(&src, &dst, diff, path);
 		return diff;
 	}
 }
-- 
2.43.0


From c8ac32046350a94c36bfc52e262652333c4a6e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:24:31 +0000
Subject: [PATCH 51/66] fix: create the built-in schema only once when several
 threads use it first

---
 src/SchemaLoader.cc | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/SchemaLoader.cc b/src/SchemaLoader.cc
index 789ee9b..79c45ad 100644
--- a/src/SchemaLoader.cc
+++ b/src/SchemaLoader.cc
@@ -52,18 +52,11 @@ namespace libvariant {
 		Variant JSON_SCHEMA_SCHEMA;
 		std::string SCHEMA_URI;
 	};
-	shared_ptr<SchemaStaticData> schema_static_data;
 
 	SchemaStaticData *GetSchemaStaticData() {
-		// This is actually a race condition when multithreading is used, but
-		// every thread will write the same data, so this is "OK" as long as
-		// the CPU cache coherency is reasonable.
-		if (!schema_static_data.get()) {
-			shared_ptr<SchemaStaticData> new_schema_static_data;
-			new_schema_static_data.reset(new SchemaStaticData);
-			schema_static_data = new_schema_static_data;
-		}
-		return schema_static_data.get();
+		// The first thread to get here creates it, others wait for that.
+		static SchemaStaticData schema_static_data;
+		return &schema_static_data;
 	}
 
 	SchemaLoader::SchemaLoader()
-- 
2.43.0


From a4003abebab03cc47fb82a604f2f27c6108179a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:25:57 +0000
Subject: [PATCH 52/66] fix: give every schema loader its own copy of the
 built-in schema

---
 src/SchemaLoader.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/SchemaLoader.cc b/src/SchemaLoader.cc
index 79c45ad..57088a0 100644
--- a/src/SchemaLoader.cc
+++ b/src/SchemaLoader.cc
@@ -65,7 +65,8 @@ namespace libvariant {
 		base(0)
    	{
 		SchemaStaticData *d = GetSchemaStaticData();
-		schemas[d->SCHEMA_URI] = d->JSON_SCHEMA_SCHEMA;
+		// A copy, because validation makes references to what it uses.
+		schemas[d->SCHEMA_URI] = d->JSON_SCHEMA_SCHEMA.Copy();
 	}
 
 	SchemaLoader::SchemaLoader(SchemaLoader *b)
@@ -75,7 +76,8 @@ namespace libvariant {
 	{
 		DBPRINT("schema loader\n");
 		SchemaStaticData *d = GetSchemaStaticData();
-		schemas[d->SCHEMA_URI] = d->JSON_SCHEMA_SCHEMA;
+		// A copy, because validation makes references to what it uses.
+		schemas[d->SCHEMA_URI] = d->JSON_SCHEMA_SCHEMA.Copy();
 	}
 
 	SchemaLoader::~SchemaLoader() {}
-- 
2.43.0


From 08082d1ae026b1e6926d38665daff01fb0dff442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:45:18 +0000
Subject: [PATCH 53/66] fix: report input files that cannot be opened in varsh

---
 src/varsh.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/varsh.cc b/src/varsh.cc
index 3595288..86d8695 100644
--- a/src/varsh.cc
+++ b/src/varsh.cc
@@ -222,6 +222,10 @@ int main(int argc, char **argv) {
 	if (state.conf.Contains("input")) {
 		for (Variant::ListIterator i(state.conf["input"].ListBegin()), e(state.conf["input"].ListEnd()); i != e; ++i) {
 			ifstream input(i->AsString().c_str());
+			if (!input) {
+				cerr << "Cannot open " << i->AsString() << endl;
+				return 1;
+			}
 			Process(state, *output, input);
 		}
 	} else {
-- 
2.43.0


From a123a724d6b4576a80121bee8acdeec2ec004e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:45:18 +0000
Subject: [PATCH 54/66] fix: report errors reading standard input in varsh

---
 src/varsh.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/varsh.cc b/src/varsh.cc
index 86d8695..e9e849d 100644
--- a/src/varsh.cc
+++ b/src/varsh.cc
@@ -28,6 +28,7 @@
 #include <iostream>
 #include <fstream>
 #include <unistd.h>
+#include <stdio.h>
 #include <stdlib.h>
 
 using namespace std;
@@ -230,6 +231,10 @@ int main(int argc, char **argv) {
 		}
 	} else {
 		Process(state, *output, cin);
+		if (ferror(stdin)) {
+			cerr << "Error reading standard input" << endl;
+			return 1;
+		}
 	}
 	return 0;
 }
-- 
2.43.0


From 6b56a24f49fcefca93a7f112571b4bb6156f5e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:45:18 +0000
Subject: [PATCH 55/66] fix: report an output file that cannot be opened in
 varsh

---
 src/varsh.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/varsh.cc b/src/varsh.cc
index e9e849d..b4ce802 100644
--- a/src/varsh.cc
+++ b/src/varsh.cc
@@ -217,6 +217,10 @@ int main(int argc, char **argv) {
 	ostream *output = &cout;
 	if (state.conf.Contains("output")) {
 		output_file.open(state.conf["output"].AsString().c_str());
+		if (!output_file) {
+			cerr << "Cannot open " << state.conf["output"].AsString() << endl;
+			return 1;
+		}
 		output = &output_file;
 	}
 
-- 
2.43.0


From f6bcdb47b960df3dad337138afb255c640964bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:45:18 +0000
Subject: [PATCH 56/66] fix: report output that cannot be written in varsh

---
 src/varsh.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/varsh.cc b/src/varsh.cc
index b4ce802..4afd5ec 100644
--- a/src/varsh.cc
+++ b/src/varsh.cc
@@ -240,6 +240,12 @@ int main(int argc, char **argv) {
 			return 1;
 		}
 	}
+	output->flush();
+	if (output_file.is_open()) { output_file.close(); }
+	if (!*output) {
+		cerr << "Error writing output" << endl;
+		return 1;
+	}
 	return 0;
 }
 
-- 
2.43.0


From d0193783c5fc95d8d58f9ebe3e37d4fa12b6765b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:46:47 +0000
Subject: [PATCH 57/66] fix: exit with a failure status after an unknown option

---
 src/ArgParse.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index bebc40b..e761ea3 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -412,7 +412,7 @@ namespace libvariant {
 		void Parse(int argc, char *const *argv);
 		Variant FormResult();
 
-		void PrintHelp(bool advanced) const;
+		void PrintHelp(bool advanced, int status = 0) const;
 		void PrintConfig();
 
 		void MergeDescription(Variant desc);
@@ -991,9 +991,9 @@ namespace libvariant {
 			while (true) {
 				int c = getopt_long(argc, argv, shortOpts.c_str(), &longOpts[0], 0);
 				if (c == -1) { break; }
-				if (c == '?') { PrintHelp(false); }
+				if (c == '?') { PrintHelp(false, 1); }
 				optmap_iter o = option_map.find(c);
-				if (o == option_map.end()) { PrintHelp(false); }
+				if (o == option_map.end()) { PrintHelp(false, 1); }
 				ArgParseOptImpl &opt = o->second;
 				opt.HandleOption(optarg);
 			}
@@ -1068,7 +1068,7 @@ namespace libvariant {
 		std::vector<const ArgParseOptImpl*> members;
 	};
 
-	void ArgParseImpl::PrintHelp(bool advanced) const {
+	void ArgParseImpl::PrintHelp(bool advanced, int status) const {
 		std::cerr << title << ": [options]";
 		for (const_arg_iter i(arguments.begin()), e(arguments.end()); i != e; ++i) {
 			const ArgParseOptImpl &arg = *GetOpt(*i);
@@ -1168,7 +1168,7 @@ namespace libvariant {
 		if (!epilog.empty()) {
 			std::cerr << "\n" << epilog << "\n" << std::endl;
 		}
-		exit(0);
+		exit(status);
 	}
 
 	void ArgParseImpl::PrintConfig() {
-- 
2.43.0


From 31cda56856b247817b80fcd798dee59c0db33ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:34:58 +0000
Subject: [PATCH 58/66] fix: keep a JSON parser in its error state when a reset
 runs out of memory

The next call dereferenced the parser that could not be allocated.
---
 src/JSONParser.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/JSONParser.cc b/src/JSONParser.cc
index 619dac4..cc5801b 100644
--- a/src/JSONParser.cc
+++ b/src/JSONParser.cc
@@ -117,12 +117,13 @@ namespace libvariant {
 	void JSONParserImpl::Reset() {
 		if (parser) { delete_JSON_parser(parser); }
 		parser = 0;
-		status = S_START;
+		status = S_ERROR; // until there is a parser again
 		line = 1;
 		column = 0;
 		charcount = 0;
 		depth = 0;
 		AllocParser();
+		status = S_START;
 	}
 
 	void JSONParserImpl::AllocParser() {
-- 
2.43.0


From f3971662396bf709f7058a439d1cb56aecf3efb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:34:58 +0000
Subject: [PATCH 59/66] fix: keep a YAML parser in its error state when a reset
 runs out of memory

The next call looped for ever on the parser that could not be set up.
---
 src/YAMLParser.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/YAMLParser.cc b/src/YAMLParser.cc
index fe741df..b955313 100644
--- a/src/YAMLParser.cc
+++ b/src/YAMLParser.cc
@@ -217,10 +217,11 @@ namespace libvariant {
 
 	void YAMLParserImpl::Reset() {
 		eof = false;
-		err = false;
+		err = true; // until there is a parser again
 		errorstr.clear();
 		deferred = DeferredException();
 		yaml_parser_delete(&parser);
 		InitParser();
+		err = false;
 	}
 }
-- 
2.43.0


From 206a8a9d79550f7ca089d16f6f45539161d3ff98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:36:14 +0000
Subject: [PATCH 60/66] fix: end when adding the defaults of a recursive schema

For data that does not exist the references of a recursive schema were
followed until the stack overflowed.
---
 src/Schema.cc | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index b50ace4..b8d33c1 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -24,6 +24,7 @@
 
 #include <Variant/Schema.h>
 #include <Variant/Path.h>
+#include <set>
 #include <vector>
 #include <stdexcept>
 #include <sstream>
@@ -855,20 +856,35 @@ namespace libvariant {
 		return ctx.result;
 	}
 
-	void AddSchemaDefaultsImpl(Variant schema, VariantRef data, SchemaLoader *loader);
+	// refs holds the references followed since data that exists, a recursive schema
+	// has defaults without end for data that does not.
+	void AddSchemaDefaultsImpl(Variant schema, VariantRef data, SchemaLoader *loader,
+			const std::set<std::string> &refs);
 
-	void AddSchemaListDefaultsImpl(VariantRef slist, VariantRef data, SchemaLoader *loader) {
+	void AddSchemaListDefaultsImpl(VariantRef slist, VariantRef data, SchemaLoader *loader,
+			const std::set<std::string> &refs) {
 		if (slist.Exists() && slist.IsList()) {
 			for (Variant::ListIterator i(slist.ListBegin()), e(slist.ListEnd()); i != e; ++i) {
-				AddSchemaDefaultsImpl(*i, data, loader);
+				AddSchemaDefaultsImpl(*i, data, loader, refs);
 			}
 		}
 	}
 
-	void AddSchemaDefaultsImpl(Variant schema, VariantRef data, SchemaLoader *loader) {
+	void AddSchemaElementDefaultsImpl(Variant schema, VariantRef data, SchemaLoader *loader,
+			const std::set<std::string> &refs) {
+		AddSchemaDefaultsImpl(schema, data, loader,
+				data.Exists() ? std::set<std::string>() : refs);
+	}
+
+	void AddSchemaDefaultsImpl(Variant schema, VariantRef data, SchemaLoader *loader,
+			const std::set<std::string> &refs) {
 		if (!schema.IsMap()) { return; }
 		if (schema.Contains("$ref") && schema["$ref"].IsString()) {
-			AddSchemaDefaultsImpl(loader->GetSchema(schema["$ref"].AsString()), data, loader);
+			std::string ref = schema["$ref"].AsString();
+			std::set<std::string> followed(refs);
+			if (followed.insert(ref).second) {
+				AddSchemaDefaultsImpl(loader->GetSchema(ref), data, loader, followed);
+			}
 		}
 		if (schema.Contains("default") && (!data.Exists() || data.IsNull())) {
 			data = schema["default"].Copy();
@@ -878,22 +894,22 @@ namespace libvariant {
 			for (Variant::MapIterator i(schema["properties"].MapBegin()), e(schema["properties"].MapEnd());
 					i != e; ++i)
 			{
-				AddSchemaDefaultsImpl(i->second, data.At(i->first), loader);
+				AddSchemaElementDefaultsImpl(i->second, data.At(i->first), loader, refs);
 			}
 		}
 		if (schema.Contains("items") && (!data.Exists() || data.IsList())) {
 			if (schema["items"].IsList()) {
 				for (unsigned i = 0; i < schema["items"].Size(); ++i)
 				{
-					AddSchemaDefaultsImpl(schema["items"][i], data[i], loader);
+					AddSchemaElementDefaultsImpl(schema["items"][i], data[i], loader, refs);
 				}
 			} else {
-				AddSchemaDefaultsImpl(schema["items"], data[0], loader);
+				AddSchemaElementDefaultsImpl(schema["items"], data[0], loader, refs);
 			}
 		}
-		AddSchemaListDefaultsImpl(schema["allOf"], data, loader);
-		AddSchemaListDefaultsImpl(schema["oneOf"], data, loader);
-		AddSchemaListDefaultsImpl(schema["anyOf"], data, loader);
+		AddSchemaListDefaultsImpl(schema["allOf"], data, loader, refs);
+		AddSchemaListDefaultsImpl(schema["oneOf"], data, loader, refs);
+		AddSchemaListDefaultsImpl(schema["anyOf"], data, loader, refs);
 	}
 
 	void AddSchemaDefaults(Variant schema, VariantRef data, SchemaLoader *loader) {
@@ -905,7 +921,7 @@ namespace libvariant {
 			schema = lloader.GetSchema(schema.AsString());
 		}
 		lloader.AddSchema("", schema);
-		AddSchemaDefaultsImpl(schema, data, &lloader);
+		AddSchemaDefaultsImpl(schema, data, &lloader, std::set<std::string>());
 	}
 
 	void InsertIndent(std::ostream &os, unsigned indent) {
-- 
2.43.0


From 04dfa24eeb8b17aade41575cb4225db7860c9dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:38:56 +0000
Subject: [PATCH 61/66] fix: do not modify the schema of option descriptions
 that all threads share

ArgParse::Validate resolved references inside the one static schema, so two
threads validating their own parsers raced.
---
 src/ArgParse.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index e761ea3..26ecf3a 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -732,7 +732,8 @@ namespace libvariant {
 	}
 
 	void ArgParse::Validate() const {
-		SchemaResult result = SchemaValidate(arg_parse_static.schema, GetDescription());
+		// Validation modifies the schema it is given.
+		SchemaResult result = SchemaValidate(arg_parse_static.schema.Copy(), GetDescription());
 		if (result.Error()) {
 			throw std::runtime_error(result.PrettyPrintMessage());
 		}
-- 
2.43.0


From 720e362dabbd62f10139e9d32a92463f6cab278c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:52:03 +0000
Subject: [PATCH 62/66] fix: forget the read failure of a reset XML parser

An error of the next document was reported as the failure of the source
before the reset.
---
 src/XMLPLISTParser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/XMLPLISTParser.cc b/src/XMLPLISTParser.cc
index 04816b9..d53a0d8 100644
--- a/src/XMLPLISTParser.cc
+++ b/src/XMLPLISTParser.cc
@@ -423,6 +423,6 @@ namespace libvariant {
 		statestack.push_back(StartState);
 		closed = false;
 		err = false;
-
+		deferred = DeferredException();
 	}
 }
-- 
2.43.0


From 1b6d8c5fb87b6dd70d41192d13b554d2e07ed0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:01:24 +0000
Subject: [PATCH 63/66] fix: find a part of a schema by its id also when the
 schema has to be loaded first

---
 src/SchemaLoader.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/SchemaLoader.cc b/src/SchemaLoader.cc
index 57088a0..f845fcb 100644
--- a/src/SchemaLoader.cc
+++ b/src/SchemaLoader.cc
@@ -140,6 +140,12 @@ namespace libvariant {
 			return Variant::NullType;
 		}
 
+		// A part with an id of its own is known by its full address.
+		Variant::MapIterator part = schemas.find(baseuri + "#" + fragment);
+		if (part != schemas.end()) {
+			return part->second;
+		}
+
 		Variant schema = iter->second;
 		return JSONPointerLookup(UnescapeURI(fragment), schema);
 	}
-- 
2.43.0


From 778d6eaf43ee82f5874d2485b99a6a228ca2fcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:10:58 +0000
Subject: [PATCH 64/66] fix: do not resolve the references of a loaded schema
 again with every validation

---
 src/Schema.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index b8d33c1..29e36b9 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -846,9 +846,11 @@ namespace libvariant {
 			schema["$ref"] = data["$schema"];
 		}
 		if (schema.IsString()) {
+			// This one is the loader's, with its references already resolved.
 			schema = lloader.GetSchema(schema.AsString());
+		} else {
+			lloader.AddSchema("", schema);
 		}
-		lloader.AddSchema("", schema);
 		SchemaContext ctx(&lloader);
 		try {
 			SchemaValidate(ctx, schema, data);
@@ -919,8 +921,9 @@ namespace libvariant {
 		}
 		if (schema.IsString()) {
 			schema = lloader.GetSchema(schema.AsString());
+		} else {
+			lloader.AddSchema("", schema);
 		}
-		lloader.AddSchema("", schema);
 		AddSchemaDefaultsImpl(schema, data, &lloader, std::set<std::string>());
 	}
 
-- 
2.43.0


From 36d3cba2de73aabda1797425caa770db0b293fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:37:55 +0000
Subject: [PATCH 65/66] fix: treat a null pointer from the input as the end of
 the data also behind the header

An input may tell its end by the null pointer alone. Reading a payload took
the requested length for available data then and dereferenced the pointer.
---
 src/Payload.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Payload.cc b/src/Payload.cc
index aada52e..5a2d20d 100644
--- a/src/Payload.cc
+++ b/src/Payload.cc
@@ -252,7 +252,7 @@ namespace libvariant {
 		while (loop) {
 			unsigned len = 1;
 			const char *ptr = (const char *)in->GetPtr(len);
-			if (len > 0) {
+			if (ptr && len > 0) {
 				unsigned i;
 				for (i = 0; i < len && loop; ++i) {
 					if (ptr[i] == '\0') {
@@ -271,7 +271,7 @@ namespace libvariant {
 			// a valid thing to do when the input is a memory buffer input
 			unsigned len = payload_length;
 			const void *ptr = in->GetPtr(len);
-			if (len < payload_length) {
+			if (!ptr || len < payload_length) {
 				throw std::runtime_error("libvariant: Error parsing payload, "
 						"unexpected EOF encountered when reading payload");
 			}
-- 
2.43.0


From f94f00e4976a7a8baa8a79ebc092e3817558d7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:41:04 +0000
Subject: [PATCH 66/66] fix: add a schema and its named parts to the loader
 completely or not at all

If memory ran out while the parts of a schema that have an id of their own
were added, the schema stayed in the loader without them and later
references to these parts failed.
---
 src/SchemaLoader.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/SchemaLoader.cc b/src/SchemaLoader.cc
index f845fcb..82e8ff6 100644
--- a/src/SchemaLoader.cc
+++ b/src/SchemaLoader.cc
@@ -156,7 +156,18 @@ namespace libvariant {
 		m[luri] = schema;
 		NormSchema(schema, luri);
 		SearchForTrustedSchemas(m, schema, luri);
-		schemas.insert(m.begin(), m.end());
+		std::map<std::string, Variant> added;
+		for (Variant::MapIterator i(m.begin()), e(m.end()); i != e; ++i) {
+			if (schemas.find(i->first) == schemas.end()) { added.insert(*i); }
+		}
+		try { schemas.insert(added.begin(), added.end()); }
+		catch (...) {
+			// All of them or none, parts are only looked up among these.
+			for (Variant::MapIterator i(added.begin()), e(added.end()); i != e; ++i) {
+				schemas.erase(i->first);
+			}
+			throw;
+		}
 		return m;
 	}
 
-- 
2.43.0

