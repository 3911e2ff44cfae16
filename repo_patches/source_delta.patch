From aa272f2bc901f14e1d4f59b92f344a5e65b16cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:04 +0000
Subject: [PATCH 01/49] fix: name the algorithm of each signature's own key in
 a=

---
 src/Signatory.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index 9e59350..64b261b 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -144,10 +144,10 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 		std::string dkimHeader;
 		unsigned long arcInstance = options.GetARCInstance();
 		if (arcInstance)
-			dkimHeader += "ARC-Message-Signature: i=" + StringFormat("%lu", arcInstance) + "; a=" + Algorithm2String(options.GetSignatureAlgorithm(), options.GetDigestAlgorithm()) + "; c="
+			dkimHeader += "ARC-Message-Signature: i=" + StringFormat("%lu", arcInstance) + "; a=" + Algorithm2String(signature.GetSignatureAlgorithm(), options.GetDigestAlgorithm()) + "; c="
 						+ CanonMode2String(options.GetCanonModeHeader()) + "/" + CanonMode2String(options.GetCanonModeBody()) + ";";
 		else
-			dkimHeader += "DKIM-Signature: v=1; a=" + Algorithm2String(options.GetSignatureAlgorithm(), options.GetDigestAlgorithm()) + "; c="
+			dkimHeader += "DKIM-Signature: v=1; a=" + Algorithm2String(signature.GetSignatureAlgorithm(), options.GetDigestAlgorithm()) + "; c="
 						+ CanonMode2String(options.GetCanonModeHeader()) + "/" + CanonMode2String(options.GetCanonModeBody()) + ";";
 
 		time_t timestamp = -1;
-- 
2.43.0


From 562fd6179e05ff851e497b751fb1b6b109407b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:04 +0000
Subject: [PATCH 02/49] fix: refuse Ed25519 signatures that are not 64 bytes
 long

---
 src/Validatory.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Validatory.cpp b/src/Validatory.cpp
index 5181e58..0770714 100644
--- a/src/Validatory.cpp
+++ b/src/Validatory.cpp
@@ -271,7 +271,8 @@ void Validatory::CheckSignature(const std::shared_ptr<DKIM::Header> header,
 		}
 		break;
 		case DKIM::DKIM_SA_ED25519:
-			if (crypto_sign_verify_detached((const unsigned char*)sig.GetSignatureData().c_str(),
+			if (sig.GetSignatureData().size() != crypto_sign_BYTES ||
+					crypto_sign_verify_detached((const unsigned char*)sig.GetSignatureData().c_str(),
 						md,
 						md_len,
 						(const unsigned char *)pub.GetED25519PublicKey().c_str()) != 0)
-- 
2.43.0


From 3d45f60f77fc30075ca9be3fec0b7e0c2641809b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:04 +0000
Subject: [PATCH 03/49] fix: refuse to sign with Ed25519 without a key

---
 src/Signatory.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index 64b261b..f1c488b 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -236,6 +236,9 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 			break;
 			case DKIM::DKIM_SA_ED25519:
 			{
+				if (signature.GetED25519PrivateKey().size() != crypto_sign_SECRETKEYBYTES)
+					throw DKIM::PermanentError("No ED25519 key provided");
+
 				unsigned char sig[crypto_sign_BYTES];
 				if (crypto_sign_detached(sig,
 							nullptr,
-- 
2.43.0


From 341ec74fc9ee3b0bc88c7174a059248333ecab48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:04 +0000
Subject: [PATCH 04/49] fix: accept exactly 1 to 76 digits in l=, whatever
 errno was before

---
 src/Signature.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/Signature.cpp b/src/Signature.cpp
index fed6983..1bb5fc0 100644
--- a/src/Signature.cpp
+++ b/src/Signature.cpp
@@ -252,14 +252,15 @@ void Signature::Parse(const std::shared_ptr<DKIM::Header> header)
 		if (l.GetValue().size() > 76)
 			throw DKIM::PermanentError("Invalid body signed length; exceeds 76 digits (l)");
 
-		char* ptr;
-		unsigned long bs = strtoul(l.GetValue().c_str(), &ptr, 10);
+		if (l.GetValue().empty() || l.GetValue().find_first_not_of("0123456789") != std::string::npos)
+			throw DKIM::PermanentError("Invalid body signed length; failed numeric parsing (l)");
+
+		errno = 0;
+		unsigned long bs = strtoul(l.GetValue().c_str(), nullptr, 10);
 		if (errno == ERANGE)
 			throw DKIM::PermanentError("Invalid body signed length; exceeds available storage size of unsigned long (l)");
 		if ((signed long)bs < 0)
 			throw DKIM::PermanentError("Invalid body signed length; must be a positive number (l)");
-		if (*ptr != '\0')
-			throw DKIM::PermanentError("Invalid body signed length; failed numeric parsing (l)");
 		m_bodySize = bs;
 		m_bodySizeLimit = true;
 	}
-- 
2.43.0


From 5163cb7421eb9c68c948576f25ca9a409d3a5cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:04 +0000
Subject: [PATCH 05/49] fix: leave the white space around the b= value out of
 the hash

---
 src/Validatory.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Validatory.cpp b/src/Validatory.cpp
index 0770714..9ee8e7d 100644
--- a/src/Validatory.cpp
+++ b/src/Validatory.cpp
@@ -243,7 +243,10 @@ void Validatory::CheckSignature(const std::shared_ptr<DKIM::Header> header,
 
 	DKIM::TagListEntry bTag;
 	sig.GetTag("b", bTag);
-	v.erase((int)bTag.GetValueOffset(), bTag.GetValue().size());
+	// the value is removed together with all white space surrounding it
+	size_t bStart = v.find_last_not_of(" \t\r\n", bTag.GetValueOffset() - 1) + 1;
+	size_t bEnd = v.find_first_not_of(" \t\r\n", bTag.GetValueOffset() + bTag.GetValue().size());
+	v.erase(bStart, bEnd == std::string::npos ? bEnd : bEnd - bStart);
 
 	std::string tmp = canonicalhead.FilterHeader(h + v);
 #ifdef DEBUG
-- 
2.43.0


From 2475518f86dc75cf2638cfe7b3cd770ad92f4d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:04 +0000
Subject: [PATCH 06/49] fix: do not let a key record with only unknown hash
 algorithms allow all

---
 src/PublicKey.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/PublicKey.cpp b/src/PublicKey.cpp
index 96af961..9f56c23 100644
--- a/src/PublicKey.cpp
+++ b/src/PublicKey.cpp
@@ -85,6 +85,9 @@ void PublicKey::Parse(const std::string& signature)
 			else if (*a == "sha1")
 				m_digestAlgorithms.push_back(DKIM_A_SHA1);
 		}
+
+		if (m_digestAlgorithms.empty())
+			throw DKIM::PermanentError("No supported hash algorithm is acceptable (h)");
 	}
 
 	// Key type
-- 
2.43.0


From 414edde053503510b433c94d63c5c55c48c03a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:04 +0000
Subject: [PATCH 07/49] fix: refuse key records that are not meant for email

---
 src/PublicKey.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/PublicKey.cpp b/src/PublicKey.cpp
index 9f56c23..5f9cc42 100644
--- a/src/PublicKey.cpp
+++ b/src/PublicKey.cpp
@@ -158,18 +158,26 @@ void PublicKey::Parse(const std::string& signature)
 		if (s.GetValue().empty())
 			throw DKIM::PermanentError("Service type is empty (s)");
 
+		bool email = false;
 		std::list<std::string> type = DKIM::Tokenizer::ValueList(s.GetValue());
 		for (std::list<std::string>::const_iterator a = type.begin();
 				a != type.end(); ++a)
 		{
 			if (*a == "email")
+			{
 				m_serviceType.push_back(DKIM_S_EMAIL);
+				email = true;
+			}
 			else if (*a == "*")
 			{
 				m_serviceType.clear();
+				email = true;
 				break;
 			}
 		}
+
+		if (!email)
+			throw DKIM::PermanentError("Public key is not intended for email (s)");
 	}
 
 	// Flags
-- 
2.43.0


From cd5a95939960c256f0d8f86b3f580bd6fe9bea57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:04 +0000
Subject: [PATCH 08/49] fix: do not read body lines as header when a signature
 is created again

---
 src/Signatory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index f1c488b..0e969c6 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -54,7 +54,7 @@ Signatory::~Signatory()
 
 std::string Signatory::CreateSignature(const SignatoryOptions& options)
 {
-	while (m_msg.ParseLine(m_file) && !m_msg.IsDone()) { }
+	while (!m_msg.IsDone() && m_msg.ParseLine(m_file)) { }
 
 	// create signature for our body (message data)
 	std::unique_ptr<EVP_MD_CTX, std::function<void(EVP_MD_CTX*)>> evpmdbody(EVP_MD_CTX_create(), [] (EVP_MD_CTX* p) { EVP_MD_CTX_destroy(p); });
-- 
2.43.0


From 6d12640fa2a41ebc9e67cc3a22b5285c11757cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:04 +0000
Subject: [PATCH 09/49] fix: hash and list the header fields that are
 oversigned

---
 src/Signatory.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index 0e969c6..eb5d372 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -114,6 +114,13 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 	bool signAll = false;
 	if (headersToSign.empty()) signAll = true;
 
+	auto oversign = options.GetOversignHeaders();
+	for (auto & i : oversign)
+	{
+		transform(i.begin(), i.end(), i.begin(), tolower);
+		headersToSign.insert(i);
+	}
+
 	// add all headers to our cache (they will be pop of the end)
 	const auto & headers = m_msg.GetHeaders();
 	for (auto h = headers.rbegin(); h != headers.rend(); ++h)
@@ -132,9 +139,6 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 			}
 		}
 	}
-	auto oversign = options.GetOversignHeaders();
-	for (auto & i : oversign)
-		transform(i.begin(), i.end(), i.begin(), tolower);
 	signedHeaders.insert(signedHeaders.end(), oversign.begin(), oversign.end());
 
 	std::string dkimHeaders;
-- 
2.43.0


From 24188381c9f3654a7d640c6cc44e82a7068c53e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:04 +0000
Subject: [PATCH 10/49] fix: do not add the identity as a second i= to ARC
 signatures

---
 src/Signatory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index eb5d372..3730953 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -175,7 +175,7 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 			limit = StringFormat("; l=%lu", options.GetBodyLength());
 
 		std::string identity;
-		if (!options.GetIdentity().empty())
+		if (!arcInstance && !options.GetIdentity().empty())
 			identity = StringFormat("; i=%s", DKIM::Conversion::QuotedPrintable::Encode(options.GetIdentity()).c_str());
 
 		dkimHeader += "\td=" + signature.GetDomain() + "; s=" + signature.GetSelector() + identity + limit + ";\r\n";
-- 
2.43.0


From 3bd4752492f4d1ee9375a5f9a410430fcb8891e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:42 +0000
Subject: [PATCH 11/49] fix: report read errors instead of treating them as the
 end of the message

---
 src/Canonicalization.cpp |  5 +++++
 src/MailParser.cpp       | 16 +++++++++++++++-
 src/MailParser.hpp       |  1 +
 tools/src/main.cpp       | 15 +++++++++++++--
 4 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/Canonicalization.cpp b/src/Canonicalization.cpp
index ed75e13..b0d0144 100644
--- a/src/Canonicalization.cpp
+++ b/src/Canonicalization.cpp
@@ -130,6 +130,8 @@ bool DKIM::Conversion::CanonicalizationBody(std::istream& stream, DKIM::CanonMod
 	{
 		stream.clear();
 		stream.seekg(bodyOffset, std::istream::beg);
+		if (stream.fail())
+			throw DKIM::TemporaryError("Message body could not be read");
 
 		bool pendingwsp = false;
 		size_t lines = 0;
@@ -197,6 +199,9 @@ bool DKIM::Conversion::CanonicalizationBody(std::istream& stream, DKIM::CanonMod
 			if (!buf.empty())
 				emptyBody = false;
 		}
+
+		if (stream.bad())
+			throw DKIM::TemporaryError("Message body could not be read");
 	}
 
 	// the rfc is unclear about this, but google does not insert an empty \r\n for
diff --git a/src/MailParser.cpp b/src/MailParser.cpp
index 8fd70fd..4bc9335 100644
--- a/src/MailParser.cpp
+++ b/src/MailParser.cpp
@@ -19,6 +19,7 @@
  *
  */
 #include "MailParser.hpp"
+#include "Exception.hpp"
 
 using DKIM::Header;
 using DKIM::Message;
@@ -72,6 +73,7 @@ Message::Message()
 void Message::Reset()
 {
 	m_done = false;
+	m_failed = false;
 	m_tmpHeader.reset();
 	m_header.clear();
 	m_bodyOffset = 0;
@@ -85,8 +87,15 @@ bool Message::IsDone() const
 bool Message::ParseLine(std::istream& stream)
 {
 	std::string line;
-	if (!std::getline(stream, line))
+	if (m_failed || !std::getline(stream, line))
 	{
+		// only the end of the message may stop us
+		if (m_failed || stream.bad() || !stream.eof())
+		{
+			m_failed = true;
+			throw DKIM::TemporaryError("Message could not be read");
+		}
+
 		if (m_tmpHeader.get())
 			m_header.push_back(m_tmpHeader);
 
@@ -106,6 +115,11 @@ bool Message::ParseLine(std::istream& stream)
 		m_tmpHeader.reset();
 
 		m_bodyOffset = stream.tellg();
+		if (m_bodyOffset == -1 && !stream.eof())
+		{
+			m_failed = true;
+			throw DKIM::TemporaryError("Position of the message body could not be determined");
+		}
 		m_done = true;
 
 		return true;
diff --git a/src/MailParser.hpp b/src/MailParser.hpp
index 47e4635..ab21ad6 100644
--- a/src/MailParser.hpp
+++ b/src/MailParser.hpp
@@ -64,6 +64,7 @@ namespace DKIM
 
 			HeaderList m_header;
 			bool m_done;
+			bool m_failed;
 	};
 }
 
diff --git a/tools/src/main.cpp b/tools/src/main.cpp
index d83a2f7..9b262ea 100644
--- a/tools/src/main.cpp
+++ b/tools/src/main.cpp
@@ -8,6 +8,7 @@ using DKIM::Signatory;
 using DKIM::SignatoryOptions;
 
 #include <cstring>
+#include <memory>
 
 #include <getopt.h>
 
@@ -163,11 +164,21 @@ int main(int argc, char* argv[])
 		return 0;
 	}
 
+	int status = 0;
+
 	// validate messages (0 .. argv)
 	for (int x = 0; x < argc; x++)
 	{
 		std::ifstream fp(argv[x]);
-		Validatory mail(fp, type);
+		std::unique_ptr<Validatory> validatory;
+		try {
+			validatory.reset(new Validatory(fp, type));
+		} catch (DKIM::TemporaryError& e) {
+			fprintf(stderr, "%s: %s\n", argv[x], e.what());
+			status = 1;
+			continue;
+		}
+		Validatory& mail = *validatory;
 
 		mail.CustomDNSResolver = MyResolver;
 
@@ -196,5 +207,5 @@ int main(int argc, char* argv[])
 		}
 	}
 
-	return 0;
+	return status;
 }
-- 
2.43.0


From fb0c36195070a27250c67f18a1b8a06da88442c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:42 +0000
Subject: [PATCH 12/49] fix: do not end a quoted string at the byte 0xff

---
 src/Tokenizer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Tokenizer.cpp b/src/Tokenizer.cpp
index 9aea7d7..4ff0cb3 100644
--- a/src/Tokenizer.cpp
+++ b/src/Tokenizer.cpp
@@ -198,7 +198,7 @@ DKIM::Tokenizer::AddressListTokens DKIM::Tokenizer::NextAddressListToken(std::st
 			data.get();
 			while (true)
 			{
-				char c = (char)data.get();
+				int c = data.get();
 
 				if (c == EOF) {
 					throw DKIM::PermanentError("unclosed string");
@@ -212,7 +212,7 @@ DKIM::Tokenizer::AddressListTokens DKIM::Tokenizer::NextAddressListToken(std::st
 				} else if (c == '"') {
 					break;
 				} else {
-					token += c;
+					token += (char)c;
 				}
 			}
 			return TOK_QUOTED;
-- 
2.43.0


From d9b9e36d03d2667adfb7450d50559998abab3c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:08 +0000
Subject: [PATCH 13/49] fix: do not scan white space in front of a bare line
 break over and over

---
 src/Canonicalization.cpp |  7 ++++++-
 src/Tokenizer.cpp        | 14 ++++++++++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/Canonicalization.cpp b/src/Canonicalization.cpp
index b0d0144..9bbf39b 100644
--- a/src/Canonicalization.cpp
+++ b/src/Canonicalization.cpp
@@ -94,7 +94,12 @@ std::string CanonicalizationHeader::FilterHeader(const std::string& input) const
 		if (found)
 			x += " ";
 
-		x += (char)data.get();
+		int c = data.get();
+		x += (char)c;
+
+		// white space that is not FWS is not FWS further in either
+		while ((c == ' ' || c == '\t') && (data.peek() == ' ' || data.peek() == '\t'))
+			x += (char)data.get();
 	}
 
 	/**
diff --git a/src/Tokenizer.cpp b/src/Tokenizer.cpp
index 4ff0cb3..e58d13b 100644
--- a/src/Tokenizer.cpp
+++ b/src/Tokenizer.cpp
@@ -158,7 +158,12 @@ std::list<std::string> DKIM::Tokenizer::ValueList(const std::string& input)
 					value_buf = "";
 				}
 
-				value += (char)data.get();
+				int c = data.get();
+				value += (char)c;
+
+				// white space that is not FWS is not FWS further in either
+				while ((c == ' ' || c == '\t') && (data.peek() == ' ' || data.peek() == '\t'))
+					value += (char)data.get();
 			}
 
 			value_buf += ws;
@@ -266,7 +271,12 @@ DKIM::Tokenizer::AddressListTokens DKIM::Tokenizer::NextAddressListToken(std::st
 			data.get();
 			return TOK_SEPARATOR;
 		}
-		token += (char)data.get();
+		int c = data.get();
+		token += (char)c;
+
+		// white space that is not FWS is not FWS further in either
+		while ((c == ' ' || c == '\t') && (data.peek() == ' ' || data.peek() == '\t'))
+			token += (char)data.get();
 	}
 
 	if (!token.empty()) return TOK_ATOM;
-- 
2.43.0


From fbd6a0e1e31dd3655eb4e386a0aaff4737e17bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:08 +0000
Subject: [PATCH 14/49] fix: search each header line for the colon only once

---
 src/MailParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MailParser.cpp b/src/MailParser.cpp
index 4bc9335..e8b60b5 100644
--- a/src/MailParser.cpp
+++ b/src/MailParser.cpp
@@ -38,11 +38,12 @@ bool Header::ParseLine(const std::string& data)
 	if (!m_header.empty())
 		m_header += "\r\n";
 
+	size_t start = m_header.size();
 	m_header += data;
 
 	if (m_valueOffset == 0)
 	{
-		size_t sep = m_header.find(':');
+		size_t sep = m_header.find(':', start);
 		if (sep == std::string::npos)
 			return false;
 
-- 
2.43.0


From 90ca0616c5418c747bbf7fae8a672cabb53f6eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:08 +0000
Subject: [PATCH 15/49] fix: let --arcinstance take its argument and accept
 --keytype

---
 tools/src/main.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/src/main.cpp b/tools/src/main.cpp
index 9b262ea..19f17d6 100644
--- a/tools/src/main.cpp
+++ b/tools/src/main.cpp
@@ -72,12 +72,13 @@ int main(int argc, char* argv[])
 	// longopts
 	static struct option longopts[] = {
 		{ "arc",	 	no_argument,		nullptr,		'a'	},
-		{ "arcinstance",no_argument,		nullptr,		'A'	},
+		{ "arcinstance",required_argument,	nullptr,		'A'	},
 		{ "help",		no_argument,		nullptr,		'h'	},
 		{ "validate",	no_argument,		nullptr,		'v'	},
 		{ "selector",	required_argument,	nullptr,		's'	},
 		{ "domain",		required_argument,	nullptr,		'd'	},
 		{ "keyfile",	required_argument,	nullptr,		'k'	},
+		{ "keytype",	required_argument,	nullptr,		'K'	},
 		{ "keyformat",	required_argument,	nullptr,		'K'	},
 		{ nullptr,			0,					nullptr,		0	}
 	};
-- 
2.43.0


From 46fc23e8f1fa761c1417af52800536cad7ddccb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:06 +0000
Subject: [PATCH 16/49] fix: free the private RSA key that is replaced

---
 src/SignatoryOptions.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/SignatoryOptions.cpp b/src/SignatoryOptions.cpp
index a07ef08..ee4aa8f 100644
--- a/src/SignatoryOptions.cpp
+++ b/src/SignatoryOptions.cpp
@@ -115,7 +115,7 @@ SignatoryOptions& SignatoryOptions::SetPrivateKey(const std::string& privatekey)
 					throw DKIM::PermanentError("Private key could not be loaded (key type must be RSA/RSA2)");
 				}
 
-				*m_privateKeyRSA = EVP_PKEY_get1_RSA(privateKey);
+				SetRSAPrivateKey(EVP_PKEY_get1_RSA(privateKey), true);
 				EVP_PKEY_free(privateKey);
 			} else {
 				/*
@@ -124,9 +124,10 @@ SignatoryOptions& SignatoryOptions::SetPrivateKey(const std::string& privatekey)
 
 				std::string tmp = DKIM::Conversion::Base64_Decode(privatekey);
 				const unsigned char *tmp2 = (const unsigned char*)tmp.c_str();
-				*m_privateKeyRSA = d2i_RSAPrivateKey(nullptr, &tmp2, tmp.size());
-				if (!*m_privateKeyRSA)
+				RSA* rsa = d2i_RSAPrivateKey(nullptr, &tmp2, tmp.size());
+				if (!rsa)
 					throw DKIM::PermanentError("RSA key could not be loaded from DER");
+				SetRSAPrivateKey(rsa, true);
 			}
 		}
 		break;
@@ -161,6 +162,8 @@ SignatoryOptions& SignatoryOptions::SetPrivateKey(const std::string& privatekey)
 
 SignatoryOptions& SignatoryOptions::SetRSAPrivateKey(RSA* privatekey, bool privatekeyfree)
 {
+	if (*m_privateKeyRSAFree && *m_privateKeyRSA != privatekey)
+		RSA_free(*m_privateKeyRSA);
 	*m_privateKeyRSA = privatekey;
 	*m_privateKeyRSAFree = privatekeyfree;
 	return *this;
@@ -288,6 +291,8 @@ AdditionalSignaturesOptions::~AdditionalSignaturesOptions()
 
 AdditionalSignaturesOptions& AdditionalSignaturesOptions::SetRSAPrivateKey(RSA* privatekey, bool privatekeyfree)
 {
+	if (m_privateKeyRSAFree && m_privateKeyRSA != privatekey)
+		RSA_free(m_privateKeyRSA);
 	m_privateKeyRSA = privatekey;
 	m_privateKeyRSAFree = privatekeyfree;
 	return *this;
@@ -345,7 +350,7 @@ AdditionalSignaturesOptions& AdditionalSignaturesOptions::SetPrivateKey(const st
 					throw DKIM::PermanentError("Private key could not be loaded (key type must be RSA/RSA2)");
 				}
 
-				m_privateKeyRSA = EVP_PKEY_get1_RSA(privateKey);
+				SetRSAPrivateKey(EVP_PKEY_get1_RSA(privateKey), true);
 				EVP_PKEY_free(privateKey);
 			} else {
 				/*
@@ -354,9 +359,10 @@ AdditionalSignaturesOptions& AdditionalSignaturesOptions::SetPrivateKey(const st
 
 				std::string tmp = DKIM::Conversion::Base64_Decode(privatekey);
 				const unsigned char *tmp2 = (const unsigned char*)tmp.c_str();
-				m_privateKeyRSA = d2i_RSAPrivateKey(nullptr, &tmp2, tmp.size());
-				if (!m_privateKeyRSA)
+				RSA* rsa = d2i_RSAPrivateKey(nullptr, &tmp2, tmp.size());
+				if (!rsa)
 					throw DKIM::PermanentError("RSA key could not be loaded from DER");
+				SetRSAPrivateKey(rsa, true);
 			}
 		}
 		break;
-- 
2.43.0


From fbdedc7465f06e34147e66ec2c987cfad5867e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:06 +0000
Subject: [PATCH 17/49] fix: share the RSA key when the options of a signature
 are copied

---
 src/SignatoryOptions.cpp | 29 +++++++++++++++++++++++++++++
 src/SignatoryOptions.hpp |  2 ++
 2 files changed, 31 insertions(+)

diff --git a/src/SignatoryOptions.cpp b/src/SignatoryOptions.cpp
index ee4aa8f..1392add 100644
--- a/src/SignatoryOptions.cpp
+++ b/src/SignatoryOptions.cpp
@@ -283,6 +283,35 @@ AdditionalSignaturesOptions::AdditionalSignaturesOptions()
 	m_signatureAlgorithm = DKIM_SA_RSA;
 }
 
+AdditionalSignaturesOptions::AdditionalSignaturesOptions(const AdditionalSignaturesOptions& other)
+: m_privateKeyRSA(other.m_privateKeyRSA)
+, m_privateKeyRSAFree(other.m_privateKeyRSAFree)
+, m_privateKeyED25519(other.m_privateKeyED25519)
+, m_signatureAlgorithm(other.m_signatureAlgorithm)
+, m_domain(other.m_domain)
+, m_selector(other.m_selector)
+{
+	if (m_privateKeyRSAFree && m_privateKeyRSA)
+		RSA_up_ref(m_privateKeyRSA);
+}
+
+AdditionalSignaturesOptions& AdditionalSignaturesOptions::operator=(const AdditionalSignaturesOptions& other)
+{
+	if (this == &other)
+		return *this;
+	if (other.m_privateKeyRSAFree && other.m_privateKeyRSA)
+		RSA_up_ref(other.m_privateKeyRSA);
+	if (m_privateKeyRSAFree)
+		RSA_free(m_privateKeyRSA);
+	m_privateKeyRSA = other.m_privateKeyRSA;
+	m_privateKeyRSAFree = other.m_privateKeyRSAFree;
+	m_privateKeyED25519 = other.m_privateKeyED25519;
+	m_signatureAlgorithm = other.m_signatureAlgorithm;
+	m_domain = other.m_domain;
+	m_selector = other.m_selector;
+	return *this;
+}
+
 AdditionalSignaturesOptions::~AdditionalSignaturesOptions()
 {
 	if (m_privateKeyRSAFree)
diff --git a/src/SignatoryOptions.hpp b/src/SignatoryOptions.hpp
index 5e1b1dc..7ec9509 100644
--- a/src/SignatoryOptions.hpp
+++ b/src/SignatoryOptions.hpp
@@ -40,6 +40,8 @@ namespace DKIM
 	{
 		public:
 			AdditionalSignaturesOptions();
+			AdditionalSignaturesOptions(const AdditionalSignaturesOptions& other);
+			AdditionalSignaturesOptions& operator=(const AdditionalSignaturesOptions& other);
 			~AdditionalSignaturesOptions();
 
 			AdditionalSignaturesOptions& SetPrivateKey(const std::string& privatekey);
-- 
2.43.0


From bf2e391ae09b7a5b1c7403f9e547efc64b551489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:06 +0000
Subject: [PATCH 18/49] fix: do not list header fields whose name cannot stand
 in h=

---
 src/Signatory.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index 3730953..c0264a4 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -43,6 +43,10 @@ using DKIM::Util::StringFormat;
 #include <map>
 #include <set>
 
+// what a header field name in the tag-list may consist of (printable ASCII and WSP, but no ':' or ';')
+static const std::string hdrnames =
+	"\t !\"#$%&'()*+,-./0123456789<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~";
+
 Signatory::Signatory(std::istream& file)
 : m_file(file)
 {
@@ -129,6 +133,9 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 		transform(name.begin(), name.end(), name.begin(), tolower);
 		if (!name.empty())
 		{
+			// the name could not be read back from the tag-list
+			if (name.find_first_not_of(hdrnames) != std::string::npos)
+				continue;
 			if (!signAll && headersToSign.find(name) == headersToSign.end())
 				continue;
 			std::string tmp = canonicalhead.FilterHeader((*h)->GetHeader()) + "\r\n";
-- 
2.43.0


From a1faf1e4cb4bdbf72fe7c1f983273ee0078c7209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:06 +0000
Subject: [PATCH 19/49] fix: refuse oversigned names that are not header field
 names

---
 src/SignatoryOptions.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/SignatoryOptions.cpp b/src/SignatoryOptions.cpp
index 1392add..2ae147b 100644
--- a/src/SignatoryOptions.cpp
+++ b/src/SignatoryOptions.cpp
@@ -220,6 +220,15 @@ SignatoryOptions& SignatoryOptions::DelHeaders(const std::list<std::string>& hea
 
 SignatoryOptions& SignatoryOptions::SetOversignHeaders(const std::list<std::string>& headers)
 {
+	for (const auto & header : headers)
+	{
+		if (header.empty())
+			throw DKIM::PermanentError("Invalid header name (h=)");
+		for (const auto & c : header)
+			if (c < '!' || c > '~' || c == ':' || c == ';')
+				throw DKIM::PermanentError("Invalid header name (h=)");
+	}
+
 	m_oversignheaders = headers;
 	return *this;
 }
-- 
2.43.0


From 672d9c95efa748782b784663db44ac32ec1b04d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:06 +0000
Subject: [PATCH 20/49] fix: remove header names regardless of their case

---
 src/SignatoryOptions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SignatoryOptions.cpp b/src/SignatoryOptions.cpp
index 2ae147b..ceb5960 100644
--- a/src/SignatoryOptions.cpp
+++ b/src/SignatoryOptions.cpp
@@ -214,7 +214,7 @@ SignatoryOptions& SignatoryOptions::AddHeaders(const std::list<std::string>& hea
 SignatoryOptions& SignatoryOptions::DelHeaders(const std::list<std::string>& headers)
 {
 	for (const auto & header : headers)
-		m_headers.remove(header);
+		m_headers.remove_if([&header] (const std::string& name) { return strcasecmp(name.c_str(), header.c_str()) == 0; });
 	return *this;
 }
 
-- 
2.43.0


From 01882772edb35a41d41eebc56156746bc2ee61fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:06 +0000
Subject: [PATCH 21/49] fix: accept q= lists that offer dns/txt among other
 methods

---
 src/Signature.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Signature.cpp b/src/Signature.cpp
index 1bb5fc0..30df51b 100644
--- a/src/Signature.cpp
+++ b/src/Signature.cpp
@@ -269,7 +269,8 @@ void Signature::Parse(const std::shared_ptr<DKIM::Header> header)
 	TagListEntry q;
 	if (m_tagList.GetTag("q", q))
 	{
-		if (q.GetValue() == "dns/txt")
+		std::list<std::string> methods = DKIM::Tokenizer::ValueList(q.GetValue());
+		if (find(methods.begin(), methods.end(), "dns/txt") != methods.end())
 			m_queryType = DKIM_Q_DNSTXT;
 		else
 			throw DKIM::PermanentError(StringFormat("Unsupported query method %s (q supports dns/txt)",
-- 
2.43.0


From 9d0807040a94047d9bf3dd6cf52ee235205204ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:06 +0000
Subject: [PATCH 22/49] fix: never count the signature being verified as one of
 its signed fields

---
 src/Validatory.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Validatory.cpp b/src/Validatory.cpp
index 9ee8e7d..8095749 100644
--- a/src/Validatory.cpp
+++ b/src/Validatory.cpp
@@ -209,6 +209,10 @@ void Validatory::CheckSignature(const std::shared_ptr<DKIM::Header> header,
 	std::map<std::string, Message::HeaderList> headerCache;
 	for (const auto & hIter : m_msg.GetHeaders())
 	{
+		// the signature itself is added last
+		if (hIter == header)
+			continue;
+
 		std::string headerName = hIter->GetName();
 		transform(headerName.begin(), headerName.end(), headerName.begin(), tolower);
 		headerCache[headerName].push_back(hIter);
-- 
2.43.0


From ee4c9642a5e2b4070692663dc6999ee915dbcd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:06 +0000
Subject: [PATCH 23/49] fix: refuse an expiration that is not a number

---
 src/Signature.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Signature.cpp b/src/Signature.cpp
index 30df51b..cd4f3a3 100644
--- a/src/Signature.cpp
+++ b/src/Signature.cpp
@@ -294,6 +294,8 @@ void Signature::Parse(const std::shared_ptr<DKIM::Header> header)
 	TagListEntry x;
 	if (m_tagList.GetTag("x", x))
 	{
+		if (x.GetValue().empty() || x.GetValue().find_first_not_of("0123456789") != std::string::npos)
+			throw DKIM::PermanentError("Invalid signature expiration; failed numeric parsing (x)");
 		if (strtol(x.GetValue().c_str(), nullptr, 10) < time(nullptr))
 			throw DKIM::PermanentError("Signature has expired (x)");
 	}
-- 
2.43.0


From 9d6116a0598d4394744e21db7577faa388180cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:06 +0000
Subject: [PATCH 24/49] fix: refuse an ARC instance that is not a number

---
 src/Signature.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Signature.cpp b/src/Signature.cpp
index cd4f3a3..d569099 100644
--- a/src/Signature.cpp
+++ b/src/Signature.cpp
@@ -207,6 +207,8 @@ void Signature::Parse(const std::shared_ptr<DKIM::Header> header)
 		TagListEntry i;
 		if (!m_tagList.GetTag("i", i))
 			throw DKIM::PermanentError("Missing ARC instance (i)");
+		if (i.GetValue().find_first_not_of("0123456789") != std::string::npos)
+			throw DKIM::PermanentError("Invalid ARC instance; failed numeric parsing (i)");
 		m_arcInstance = strtoul(i.GetValue().c_str(), nullptr, 10);
 		if (m_arcInstance < 1 || m_arcInstance > 50)
 			throw DKIM::PermanentError("ARC instance (i) out of range 1-50");
-- 
2.43.0


From 3afe3f830661f785391e8b01e9f6cb2791cc1328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:06 +0000
Subject: [PATCH 25/49] fix: refuse signatures with an empty d=, s= or bh=

---
 src/Signature.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Signature.cpp b/src/Signature.cpp
index d569099..bfb382d 100644
--- a/src/Signature.cpp
+++ b/src/Signature.cpp
@@ -84,7 +84,7 @@ void Signature::Parse(const std::shared_ptr<DKIM::Header> header)
 
 	// Domain of the signing entity
 	TagListEntry d;
-	if (!m_tagList.GetTag("d", d))
+	if (!m_tagList.GetTag("d", d) || d.GetValue().empty())
 		throw DKIM::PermanentError("Missing domain of the signing entity (d)");
 	m_domain = d.GetValue();
 	transform(m_domain.begin(), m_domain.end(), m_domain.begin(), tolower);
@@ -140,7 +140,7 @@ void Signature::Parse(const std::shared_ptr<DKIM::Header> header)
 
 	// Hash of the canonicalized body
 	TagListEntry bh;
-	if (!m_tagList.GetTag("bh", bh))
+	if (!m_tagList.GetTag("bh", bh) || bh.GetValue().empty())
 			throw DKIM::PermanentError("Missing body hash (bh)");
 	std::string bhtmp = bh.GetValue();
 	bhtmp.erase(remove_if(bhtmp.begin(), bhtmp.end(), isspace), bhtmp.end());
@@ -283,7 +283,7 @@ void Signature::Parse(const std::shared_ptr<DKIM::Header> header)
 
 	// Selector
 	TagListEntry s;
-	if (!m_tagList.GetTag("s", s))
+	if (!m_tagList.GetTag("s", s) || s.GetValue().empty())
 		throw DKIM::PermanentError("Missing query selector (s)");
 	m_selector = s.GetValue();
 
-- 
2.43.0


From 88a2faad3fc640a942815ff7a35b426221ccc305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:06 +0000
Subject: [PATCH 26/49] fix: decode semicolons in Q encoded words

---
 src/QuotedPrintable.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/QuotedPrintable.cpp b/src/QuotedPrintable.cpp
index 9a61a7e..8b4c677 100644
--- a/src/QuotedPrintable.cpp
+++ b/src/QuotedPrintable.cpp
@@ -74,7 +74,8 @@ std::string QuotedPrintable::Decode(const std::string& input, bool convert_to_sp
 		} else if (
 					(data.peek() >= '\x21' && data.peek() <= '\x3A') ||
 					(data.peek() == '\x3C') ||
-					(data.peek() >= '\x3E' && data.peek() <= '\x7E')
+					(data.peek() >= '\x3E' && data.peek() <= '\x7E') ||
+					(convert_to_space && data.peek() == ';')
 				) {
 			output += (char)data.get();
 		} else if (!ReadWhiteSpace(data, DKIM::Tokenizer::READ_FWS).empty()) {
-- 
2.43.0


From 65fca5524fcc92d6194dad296688c95e381a4615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:06 +0000
Subject: [PATCH 27/49] fix: do not end a comment at a parenthesis behind an
 escaped character

---
 src/Tokenizer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Tokenizer.cpp b/src/Tokenizer.cpp
index e58d13b..9ee2aa3 100644
--- a/src/Tokenizer.cpp
+++ b/src/Tokenizer.cpp
@@ -240,6 +240,7 @@ DKIM::Tokenizer::AddressListTokens DKIM::Tokenizer::NextAddressListToken(std::st
 					//if (data.peek() != ')' && data.peek() != '(')
 					//	throw DKIM::PermanentError("unclosed comment");
 					token += (char)data.get();
+					continue;
 				}
 				if (data.peek() == '(')
 					++depth;
-- 
2.43.0


From 3938ad0b77562850aea6be191742cc4489459e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:06 +0000
Subject: [PATCH 28/49] fix: keep addresses with white space or comments around
 their parts

---
 src/Tokenizer.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Tokenizer.cpp b/src/Tokenizer.cpp
index 9ee2aa3..c00e6d8 100644
--- a/src/Tokenizer.cpp
+++ b/src/Tokenizer.cpp
@@ -295,6 +295,7 @@ std::list<std::string> DKIM::Tokenizer::ParseAddressList(const std::string& inpu
 
 	std::list<std::string> tokens;
 	bool inOpentag = false;
+	bool hasAtSign = false; // in an unquoted part
 	while (type != TOK_EOF)
 	{
 		lasttype = type;
@@ -309,6 +310,8 @@ std::list<std::string> DKIM::Tokenizer::ParseAddressList(const std::string& inpu
 				tokens.push_back(token);
 			break;
 			case TOK_ATOM:
+				if (token.find('@') != std::string::npos)
+					hasAtSign = true;
 				tokens.push_back(token);
 			break;
 			case TOK_COMMENT:
@@ -316,6 +319,7 @@ std::list<std::string> DKIM::Tokenizer::ParseAddressList(const std::string& inpu
 			break;
 			case TOK_TAG_OPEN:
 				tokens.clear();
+				hasAtSign = false;
 				inOpentag = true;
 			break;
 			case TOK_TAG_CLOSE:
@@ -332,7 +336,7 @@ std::list<std::string> DKIM::Tokenizer::ParseAddressList(const std::string& inpu
 				if (tokens.empty()) break;
 
 				// skip , in unescaped user parts like From: User, Company Inc <foo@example.org>
-				if (type == TOK_SEPARATOR && lasttype != TOK_TAG_CLOSE && tokens.back().find('@') == std::string::npos)
+				if (type == TOK_SEPARATOR && lasttype != TOK_TAG_CLOSE && !hasAtSign && tokens.back().find('@') == std::string::npos)
 				{
 					tokens.clear();
 					continue;
@@ -355,6 +359,7 @@ std::list<std::string> DKIM::Tokenizer::ParseAddressList(const std::string& inpu
 					list.push_back(tmp);
 				}
 				tokens.clear();
+				hasAtSign = false;
 			}
 			break;
 		}
-- 
2.43.0


From f2636c010c5234afc22883ebf26e99128c1f0f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:06 +0000
Subject: [PATCH 29/49] fix: do not make the name of a group a part of its
 first address

---
 src/Tokenizer.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/Tokenizer.cpp b/src/Tokenizer.cpp
index c00e6d8..3be5831 100644
--- a/src/Tokenizer.cpp
+++ b/src/Tokenizer.cpp
@@ -310,6 +310,17 @@ std::list<std::string> DKIM::Tokenizer::ParseAddressList(const std::string& inpu
 				tokens.push_back(token);
 			break;
 			case TOK_ATOM:
+				// throw away the name of a group (Friends: foo@example.org, ...;)
+				if (!inOpentag && !hasAtSign)
+				{
+					size_t colon = token.find(':');
+					if (colon != std::string::npos && colon < token.find('@'))
+					{
+						tokens.clear();
+						token.erase(0, colon + 1);
+						if (token.empty()) break;
+					}
+				}
 				if (token.find('@') != std::string::npos)
 					hasAtSign = true;
 				tokens.push_back(token);
-- 
2.43.0


From 57d4dd85fad1523ef225adb33ba162e9efb69d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:25 +0000
Subject: [PATCH 30/49] fix: skip all white space between the tokens of an
 address field

A line that is folded more than once (obs-FWS) left a line break inside
the returned address.
---
 src/Tokenizer.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Tokenizer.cpp b/src/Tokenizer.cpp
index 3be5831..4c65dd7 100644
--- a/src/Tokenizer.cpp
+++ b/src/Tokenizer.cpp
@@ -190,11 +190,11 @@ DKIM::Tokenizer::AddressListTokens DKIM::Tokenizer::NextAddressListToken(std::st
 
 	while (data.peek() != EOF)
 	{
-		if (!ReadWhiteSpace(data, READ_FWS).empty())
-		{
-			if (!token.empty())
-				break;
-		}
+		bool space = false;
+		while (!ReadWhiteSpace(data, READ_FWS).empty())
+			space = true;
+		if (space && !token.empty())
+			break;
 		if (data.peek() == EOF)
 			break;
 		if (data.peek() == '"')
-- 
2.43.0


From 674498d293ca473c00bfcf75d20a8fc8e3d78789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:38 +0000
Subject: [PATCH 31/49] fix: forget the previous record when a public key
 object is parsed again

---
 src/PublicKey.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PublicKey.cpp b/src/PublicKey.cpp
index 5f9cc42..7f5be1b 100644
--- a/src/PublicKey.cpp
+++ b/src/PublicKey.cpp
@@ -52,6 +52,7 @@ void PublicKey::Reset()
 
 void PublicKey::Parse(const std::string& signature)
 {
+	Reset();
 	m_tagList.Parse(signature);
 
 	/**
-- 
2.43.0


From 2da4df2d5178acc6c9d4013e5619640b473909f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:38 +0000
Subject: [PATCH 32/49] fix: forget the previous field when a signature object
 is parsed again

---
 src/Signature.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Signature.cpp b/src/Signature.cpp
index bfb382d..d3db0ce 100644
--- a/src/Signature.cpp
+++ b/src/Signature.cpp
@@ -71,6 +71,7 @@ void Signature::Reset()
 
 void Signature::Parse(const std::shared_ptr<DKIM::Header> header)
 {
+	Reset();
 	m_tagList.Parse(header->GetHeader().substr(header->GetValueOffset()));
 
 	std::string headerName = header->GetName();
-- 
2.43.0


From 8f696f518a90d5660afd6a79966371089a3538c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 33/49] fix: dkimtool: report a key file that cannot be read

---
 tools/src/main.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/src/main.cpp b/tools/src/main.cpp
index 19f17d6..da17153 100644
--- a/tools/src/main.cpp
+++ b/tools/src/main.cpp
@@ -139,11 +139,12 @@ int main(int argc, char* argv[])
 			fprintf(stderr, "keyfile %s could not be open\n", keyfile.c_str());
 			return 1;
 		}
-		std::string key((std::istreambuf_iterator<char>(kfp)),
-				std::istreambuf_iterator<char>());
 
 		std::ifstream fp(argv[0]);
 		try {
+			std::string key((std::istreambuf_iterator<char>(kfp)),
+					std::istreambuf_iterator<char>());
+
 			printf("%s\r\n",
 					Signatory(fp).CreateSignature(
 						SignatoryOptions()
-- 
2.43.0


From 9e6022dc4fb8dba892d3eed65dd8d5a54125b37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 34/49] fix: dkimtool: keep the report on a signature on one
 line

---
 tools/src/main.cpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/tools/src/main.cpp b/tools/src/main.cpp
index da17153..fdc67f6 100644
--- a/tools/src/main.cpp
+++ b/tools/src/main.cpp
@@ -19,6 +19,15 @@ bool MyResolver(const std::string& domain, std::string& result, void* data)
 	return DKIM::Util::Resolver().GetTXT(domain, result);
 }
 
+// values from messages and DNS records may contain line breaks
+static std::string OneLine(std::string text)
+{
+	for (auto & c : text)
+		if (c == '\r' || c == '\n')
+			c = ' ';
+	return text;
+}
+
 extern char *__progname;
 
 void usage(FILE* fp, int status)
@@ -194,17 +203,17 @@ int main(int argc, char* argv[])
 				mail.GetSignature(i, sig);
 				mail.GetPublicKey(sig, pub);
 				mail.CheckSignature(*i, sig, pub);
-				printf("[%s][%s][%s] OK\n", argv[x], sig.GetDomain().c_str(), sig.GetSelector().c_str());
+				printf("[%s][%s][%s] OK\n", argv[x], OneLine(sig.GetDomain()).c_str(), OneLine(sig.GetSelector()).c_str());
 			} catch (DKIM::TemporaryError& e) {
-				printf("[%s][%s][%s](%s) TEMPERR:%s\n", argv[x], sig.GetDomain().c_str(), sig.GetSelector().c_str(),
-					e.getAuthenticationResult(), e.what());
+				printf("[%s][%s][%s](%s) TEMPERR:%s\n", argv[x], OneLine(sig.GetDomain()).c_str(), OneLine(sig.GetSelector()).c_str(),
+					e.getAuthenticationResult(), OneLine(e.what()).c_str());
 			} catch (DKIM::PermanentError& e) {
 				if (pub.SoftFail())
-					printf("[%s][%s][%s](%s) SOFT:%s\n", argv[x], sig.GetDomain().c_str(), sig.GetSelector().c_str(),
-						e.getAuthenticationResult(), e.what());
+					printf("[%s][%s][%s](%s) SOFT:%s\n", argv[x], OneLine(sig.GetDomain()).c_str(), OneLine(sig.GetSelector()).c_str(),
+						e.getAuthenticationResult(), OneLine(e.what()).c_str());
 				else
-					printf("[%s][%s][%s](%s) = %s\n", argv[x], sig.GetDomain().c_str(), sig.GetSelector().c_str(),
-						e.getAuthenticationResult(), e.what());
+					printf("[%s][%s][%s](%s) = %s\n", argv[x], OneLine(sig.GetDomain()).c_str(), OneLine(sig.GetSelector()).c_str(),
+						e.getAuthenticationResult(), OneLine(e.what()).c_str());
 			}
 		}
 	}
-- 
2.43.0


From 45e736bd1e2f2922be74ed8505f8f57eebf6a421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:35 +0000
Subject: [PATCH 35/49] fix: accept an @ in a quoted local-part of the identity

---
 src/Signature.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/Signature.cpp b/src/Signature.cpp
index d3db0ce..6dbef5b 100644
--- a/src/Signature.cpp
+++ b/src/Signature.cpp
@@ -225,6 +225,15 @@ void Signature::Parse(const std::shared_ptr<DKIM::Header> header)
 			std::string mail = QuotedPrintable::Decode(i.GetValue());
 
 			size_t mailsep = mail.find('@');
+			// a quoted local-part may have this character too
+			if (!mail.empty() && mail[0] == '"')
+			{
+				size_t quote = 1;
+				while (quote < mail.size() && mail[quote] != '"')
+					quote += mail[quote] == '\\' ? 2 : 1;
+				if (quote < mail.size())
+					mailsep = mail.find('@', quote);
+			}
 			if (mailsep == std::string::npos)
 				throw DKIM::PermanentError("Missing a local-part (i)");
 
-- 
2.43.0


From 2119585a9fcf8ad0fa0d3cb38a01d61f45971f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:11 +0000
Subject: [PATCH 36/49] fix: report a failing digest computation instead of
 signing or comparing what is left in the buffer

---
 src/Canonicalization.hpp | 14 +++++++++++++-
 src/Signatory.cpp        | 31 +++++++++++++++++--------------
 src/Validatory.cpp       | 23 ++++++++++++-----------
 3 files changed, 42 insertions(+), 26 deletions(-)

diff --git a/src/Canonicalization.hpp b/src/Canonicalization.hpp
index 83e115b..e9c79b3 100644
--- a/src/Canonicalization.hpp
+++ b/src/Canonicalization.hpp
@@ -22,6 +22,7 @@
 #define _DKIM_CANONICALIZATION_HPP_
 
 #include "DKIM.hpp"
+#include "Exception.hpp"
 
 #include <string>
 #include <vector>
@@ -33,9 +34,20 @@ namespace DKIM {
 		struct EVPDigest
 		{
 			EVP_MD_CTX* ctx;
+			void init(const EVP_MD* type)
+			{
+				if (!ctx || EVP_DigestInit_ex(ctx, type, nullptr) != 1)
+					throw DKIM::TemporaryError("Message digest could not be computed");
+			}
 			void update(const char* ptr, size_t i)
 			{
-				EVP_DigestUpdate(ctx, ptr, i);
+				if (EVP_DigestUpdate(ctx, ptr, i) != 1)
+					throw DKIM::TemporaryError("Message digest could not be computed");
+			}
+			void final(unsigned char* md, unsigned int* md_len)
+			{
+				if (EVP_DigestFinal_ex(ctx, md, md_len) != 1)
+					throw DKIM::TemporaryError("Message digest could not be computed");
 			}
 		};
 		class CanonicalizationHeader
diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index c0264a4..e5335ac 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -62,19 +62,18 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 
 	// create signature for our body (message data)
 	std::unique_ptr<EVP_MD_CTX, std::function<void(EVP_MD_CTX*)>> evpmdbody(EVP_MD_CTX_create(), [] (EVP_MD_CTX* p) { EVP_MD_CTX_destroy(p); });
+	DKIM::Conversion::EVPDigest evpupd;
+	evpupd.ctx = evpmdbody.get();
 	switch (options.GetDigestAlgorithm())
 	{
 		case DKIM::DKIM_A_SHA1:
-			EVP_DigestInit_ex(evpmdbody.get(), EVP_sha1(), nullptr);
+			evpupd.init(EVP_sha1());
 			break;
 		case DKIM::DKIM_A_SHA256:
-			EVP_DigestInit_ex(evpmdbody.get(), EVP_sha256(), nullptr);
+			evpupd.init(EVP_sha256());
 			break;
 	}
 
-	DKIM::Conversion::EVPDigest evpupd;
-	evpupd.ctx = evpmdbody.get();
-
 	if (!CanonicalizationBody(m_file,
 			options.GetCanonModeBody(),
 			m_msg.GetBodyOffset(),
@@ -85,21 +84,23 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 
 	unsigned char md[EVP_MAX_MD_SIZE];
 	unsigned int md_len;
-	EVP_DigestFinal_ex(evpmdbody.get(), md, &md_len);
+	evpupd.final(md, &md_len);
 
 	std::string bh((char*)md, md_len);
 
 	// create signature for our header
 	std::unique_ptr<EVP_MD_CTX, std::function<void(EVP_MD_CTX*)>> evpmdhead(EVP_MD_CTX_create(), [] (EVP_MD_CTX* p) { EVP_MD_CTX_destroy(p); });
+	DKIM::Conversion::EVPDigest evpupdhead;
+	evpupdhead.ctx = evpmdhead.get();
 	int md_nid;
 	switch (options.GetDigestAlgorithm())
 	{
 		case DKIM::DKIM_A_SHA1:
-			EVP_DigestInit_ex(evpmdhead.get(), EVP_sha1(), nullptr);
+			evpupdhead.init(EVP_sha1());
 			md_nid = NID_sha1;
 			break;
 		case DKIM::DKIM_A_SHA256:
-			EVP_DigestInit_ex(evpmdhead.get(), EVP_sha256(), nullptr);
+			evpupdhead.init(EVP_sha256());
 			md_nid = NID_sha256;
 			break;
 	}
@@ -141,7 +142,7 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 			std::string tmp = canonicalhead.FilterHeader((*h)->GetHeader()) + "\r\n";
 			if (!tmp.empty())
 			{
-				EVP_DigestUpdate(evpmdhead.get(), tmp.c_str(), tmp.size());
+				evpupdhead.update(tmp.c_str(), tmp.size());
 				signedHeaders.push_back(name);
 			}
 		}
@@ -204,12 +205,14 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 		dkimHeader += "\tbh=" + Base64_Encode(bh) + ";\r\n";
 		dkimHeader += "\tb=";
 
-		EVP_MD_CTX* evpmdhead2 = EVP_MD_CTX_new();
-		EVP_MD_CTX_copy(evpmdhead2, evpmdhead.get());
+		std::unique_ptr<EVP_MD_CTX, std::function<void(EVP_MD_CTX*)>> evpmdhead2(EVP_MD_CTX_new(), [] (EVP_MD_CTX* p) { EVP_MD_CTX_free(p); });
+		DKIM::Conversion::EVPDigest evpupdhead2;
+		evpupdhead2.ctx = evpmdhead2.get();
+		if (!evpmdhead2 || EVP_MD_CTX_copy(evpmdhead2.get(), evpmdhead.get()) != 1)
+			throw DKIM::TemporaryError("Message digest could not be computed");
 		std::string tmp2 = canonicalhead.FilterHeader(dkimHeader);
-		EVP_DigestUpdate(evpmdhead2, tmp2.c_str(), tmp2.size());
-		EVP_DigestFinal_ex(evpmdhead2, md, &md_len);
-		EVP_MD_CTX_free(evpmdhead2);
+		evpupdhead2.update(tmp2.c_str(), tmp2.size());
+		evpupdhead2.final(md, &md_len);
 		/*
 		std::string tmp2 = canonicalhead.FilterHeader(dkimHeader);
 		EVP_DigestUpdate(evpmdhead.get(), tmp2.c_str(), tmp2.size());
diff --git a/src/Validatory.cpp b/src/Validatory.cpp
index 8095749..10b9970 100644
--- a/src/Validatory.cpp
+++ b/src/Validatory.cpp
@@ -131,21 +131,20 @@ void Validatory::GetPublicKey(const DKIM::Signature& sig,
 void Validatory::CheckBodyHash(const DKIM::Signature& sig)
 {
 	std::unique_ptr<EVP_MD_CTX, std::function<void(EVP_MD_CTX*)>> evpmdbody(EVP_MD_CTX_create(), [] (EVP_MD_CTX* p) { EVP_MD_CTX_destroy(p); });
+	DKIM::Conversion::EVPDigest evpupd;
+	evpupd.ctx = evpmdbody.get();
 
 	// create signature for our body (message data)
 	switch (sig.GetDigestAlgorithm())
 	{
 		case DKIM::DKIM_A_SHA1:
-			EVP_DigestInit_ex(evpmdbody.get(), EVP_sha1(), nullptr);
+			evpupd.init(EVP_sha1());
 			break;
 		case DKIM::DKIM_A_SHA256:
-			EVP_DigestInit_ex(evpmdbody.get(), EVP_sha256(), nullptr);
+			evpupd.init(EVP_sha256());
 			break;
 	}
 
-	DKIM::Conversion::EVPDigest evpupd;
-	evpupd.ctx = evpmdbody.get();
-
 	CanonicalizationBody(m_file,
 			sig.GetCanonModeBody(),
 			m_msg.GetBodyOffset(),
@@ -155,7 +154,7 @@ void Validatory::CheckBodyHash(const DKIM::Signature& sig)
 
 	unsigned char md_value[EVP_MAX_MD_SIZE];
 	unsigned int md_len;
-	EVP_DigestFinal_ex(evpmdbody.get(), md_value, &md_len);
+	evpupd.final(md_value, &md_len);
 
 	if (sig.GetBodyHash().size() != md_len ||
 			memcmp(sig.GetBodyHash().c_str(), md_value, md_len) != 0)
@@ -190,15 +189,17 @@ void Validatory::CheckSignature(const std::shared_ptr<DKIM::Header> header,
 
 	// create signature for our header
 	std::unique_ptr<EVP_MD_CTX, std::function<void(EVP_MD_CTX*)>> evpmdhead(EVP_MD_CTX_create(), [] (EVP_MD_CTX* p) { EVP_MD_CTX_destroy(p); });
+	DKIM::Conversion::EVPDigest evpupdhead;
+	evpupdhead.ctx = evpmdhead.get();
 	int md_nid;
 	switch (sig.GetDigestAlgorithm())
 	{
 		case DKIM::DKIM_A_SHA1:
-			EVP_DigestInit_ex(evpmdhead.get(), EVP_sha1(), nullptr);
+			evpupdhead.init(EVP_sha1());
 			md_nid = NID_sha1;
 			break;
 		case DKIM::DKIM_A_SHA256:
-			EVP_DigestInit_ex(evpmdhead.get(), EVP_sha256(), nullptr);
+			evpupdhead.init(EVP_sha256());
 			md_nid = NID_sha256;
 			break;
 	}
@@ -238,7 +239,7 @@ void Validatory::CheckSignature(const std::shared_ptr<DKIM::Header> header,
 #endif
 		tmp = canonicalhead.FilterHeader(head->second.back()->GetHeader()) + "\r\n";
 		head->second.pop_back();
-		EVP_DigestUpdate(evpmdhead.get(), tmp.c_str(), tmp.size());
+		evpupdhead.update(tmp.c_str(), tmp.size());
 	}
 
 	// add our dkim-signature to the calculation (remove the "b"-tag)
@@ -256,11 +257,11 @@ void Validatory::CheckSignature(const std::shared_ptr<DKIM::Header> header,
 #ifdef DEBUG
 	printf("[%s]\n", tmp.c_str());
 #endif
-	EVP_DigestUpdate(evpmdhead.get(), tmp.c_str(), tmp.size());
+	evpupdhead.update(tmp.c_str(), tmp.size());
 
 	unsigned char md[EVP_MAX_MD_SIZE];
 	unsigned int md_len;
-	EVP_DigestFinal_ex(evpmdhead.get(), md, &md_len);
+	evpupdhead.final(md, &md_len);
 
 	// verify the header signature
 	switch (sig.GetSignatureAlgorithm())
-- 
2.43.0


From df13849f44d1ef11b57dcbcf5651a8dd1688afb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:33 +0000
Subject: [PATCH 37/49] fix: Base64 conversion throws when it runs out of
 memory instead of crashing, truncating or leaking

---
 src/Base64.cpp | 51 +++++++++++++++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 17 deletions(-)

diff --git a/src/Base64.cpp b/src/Base64.cpp
index d36efe4..fcfd993 100644
--- a/src/Base64.cpp
+++ b/src/Base64.cpp
@@ -24,36 +24,54 @@
 #include <openssl/bio.h>
 #include <openssl/evp.h>
 #include <openssl/buffer.h>
+#include <memory>
+#include <new>
+
+typedef std::unique_ptr<BIO, void (*)(BIO*)> BIOPtr;
+
+// the base64 filter in front of a memory buffer
+static BIOPtr Base64Chain(BIO*& mem)
+{
+	BIOPtr filter(BIO_new(BIO_f_base64()), BIO_free_all);
+	mem = BIO_new(BIO_s_mem());
+	if (!filter || !mem)
+	{
+		BIO_free(mem);
+		throw std::bad_alloc();
+	}
+	BIO_push(filter.get(), mem);
+	BIO_set_flags(filter.get(), BIO_FLAGS_BASE64_NO_NL);
+	return filter;
+}
+
+static void Write(BIO* bio, const std::string& data)
+{
+	if (!data.empty() && BIO_write(bio, data.c_str(), data.size()) != (int)data.size())
+		throw std::bad_alloc();
+	if (BIO_flush(bio) != 1)
+		throw std::bad_alloc();
+}
 
 std::string DKIM::Conversion::Base64_Decode(const std::string& data)
 {
-	BIO *i, *o, *l;
-	i = BIO_new(BIO_f_base64());
-	BIO_set_flags(i, BIO_FLAGS_BASE64_NO_NL);
-	o = BIO_new(BIO_s_mem());
-	l = BIO_push(i, o);
-	BIO_write(o, data.c_str(), data.size());
-	(void) BIO_flush(o);
+	BIO* o;
+	BIOPtr l = Base64Chain(o);
+	Write(o, data);
 
 	char b[1024];
 	int r;
 	std::string result;
-	while ((r = BIO_read(l, b, sizeof b)) > 0)
+	while ((r = BIO_read(l.get(), b, sizeof b)) > 0)
 		result.append(b, (size_t)r);
 
-	BIO_free_all(l);
 	return result;
 }
 
 std::string DKIM::Conversion::Base64_Encode(const std::string& data)
 {
-	BIO *i, *o, *l;
-	i = BIO_new(BIO_f_base64());
-	o = BIO_new(BIO_s_mem());
-	l = BIO_push(i, o);
-	BIO_set_flags(l, BIO_FLAGS_BASE64_NO_NL);
-	BIO_write(l, data.c_str(), data.size());
-	(void) BIO_flush(l);
+	BIO* o;
+	BIOPtr l = Base64Chain(o);
+	Write(l.get(), data);
 	std::string str;
 
 	char buf[256];
@@ -64,6 +82,5 @@ std::string DKIM::Conversion::Base64_Encode(const std::string& data)
 		str.append(buf, (size_t)r);
 	}
 
-	BIO_free_all(l);
 	return str;
 }
-- 
2.43.0


From 0740cec84f7dd636deb79bbef6856512c250b4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:33 +0000
Subject: [PATCH 38/49] fix: StringFormat leaked its buffer when the result
 could not be allocated

---
 src/Util.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/Util.cpp b/src/Util.cpp
index 9c0436a..6ad9583 100644
--- a/src/Util.cpp
+++ b/src/Util.cpp
@@ -23,6 +23,7 @@
 #include <cstdarg>
 #include <cstdio>
 #include <cstdlib>
+#include <memory>
 
 std::string DKIM::Util::CanonMode2String(CanonMode mode)
 {
@@ -66,12 +67,12 @@ std::string DKIM::Util::StringFormat(const char* fmt, ...)
 	va_list args;
 	va_start(args, fmt);
 	char* mem = nullptr;
-	if (vasprintf(&mem, fmt, args) == -1)
-		throw std::bad_alloc();
-	std::string result = mem;
-	free(mem);
+	int r = vasprintf(&mem, fmt, args);
 	va_end(args);
-	return result;
+	if (r == -1)
+		throw std::bad_alloc();
+	std::unique_ptr<char, void (*)(void*)> guard(mem, free);
+	return mem;
 }
 
 static std::string alphanum =
-- 
2.43.0


From f19bdb97c9bedc8f4f37af5d891f0112b0b1fe31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:35 +0000
Subject: [PATCH 39/49] fix: signing leaked the signature buffer when the
 result could not be allocated

---
 src/Signatory.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index e5335ac..773ed1c 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -229,23 +229,19 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 					throw DKIM::PermanentError("No RSA key provided");
 
 				unsigned int sig_len;
-				unsigned char* sig = new unsigned char[RSA_size(rsa)];
+				std::vector<unsigned char> sig(RSA_size(rsa));
 
 				int r = RSA_sign(md_nid,
 						md,
 						md_len,
-						sig,
+						sig.data(),
 						&sig_len,
 						rsa);
 
 				if (r != 1)
-				{
-					delete [] sig;
 					throw DKIM::PermanentError("Message could not be signed");
-				}
 
-				tmp3 = std::string((const char*)sig, sig_len);
-				delete [] sig;
+				tmp3 = std::string((const char*)sig.data(), sig_len);
 			}
 			break;
 			case DKIM::DKIM_SA_ED25519:
-- 
2.43.0


From 60cfb13d266829b34fb3ce98b2e90af83df9fbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:51 +0000
Subject: [PATCH 40/49] fix: an RSA key that cannot be extracted is an error,
 not a null pointer

---
 src/PublicKey.cpp        |  3 +++
 src/SignatoryOptions.cpp | 10 ++++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/PublicKey.cpp b/src/PublicKey.cpp
index 7f5be1b..ad6c381 100644
--- a/src/PublicKey.cpp
+++ b/src/PublicKey.cpp
@@ -140,6 +140,9 @@ void PublicKey::Parse(const std::string& signature)
 
 			m_publicKeyRSA = EVP_PKEY_get1_RSA(publicKey);
 			EVP_PKEY_free(publicKey);
+
+			if (m_publicKeyRSA == nullptr)
+				throw DKIM::PermanentError("Public key could not be loaded");
 		}
 		break;
 		case DKIM_SA_ED25519:
diff --git a/src/SignatoryOptions.cpp b/src/SignatoryOptions.cpp
index ceb5960..0ddfefe 100644
--- a/src/SignatoryOptions.cpp
+++ b/src/SignatoryOptions.cpp
@@ -115,8 +115,11 @@ SignatoryOptions& SignatoryOptions::SetPrivateKey(const std::string& privatekey)
 					throw DKIM::PermanentError("Private key could not be loaded (key type must be RSA/RSA2)");
 				}
 
-				SetRSAPrivateKey(EVP_PKEY_get1_RSA(privateKey), true);
+				RSA* rsa = EVP_PKEY_get1_RSA(privateKey);
 				EVP_PKEY_free(privateKey);
+				if (!rsa)
+					throw DKIM::PermanentError("RSA key could not be loaded from PEM");
+				SetRSAPrivateKey(rsa, true);
 			} else {
 				/*
 				 * Expect the data to be in DER format)
@@ -388,8 +391,11 @@ AdditionalSignaturesOptions& AdditionalSignaturesOptions::SetPrivateKey(const st
 					throw DKIM::PermanentError("Private key could not be loaded (key type must be RSA/RSA2)");
 				}
 
-				SetRSAPrivateKey(EVP_PKEY_get1_RSA(privateKey), true);
+				RSA* rsa = EVP_PKEY_get1_RSA(privateKey);
 				EVP_PKEY_free(privateKey);
+				if (!rsa)
+					throw DKIM::PermanentError("RSA key could not be loaded from PEM");
+				SetRSAPrivateKey(rsa, true);
 			} else {
 				/*
 				 * Expect the data to be in DER format)
-- 
2.43.0


From 3a829a0c3fd4f6bdef6751886e72fd09ed0f037b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:33 +0000
Subject: [PATCH 41/49] fix: an encoded word that could not be decoded for lack
 of memory was passed through as if it were invalid

---
 src/EncodedWord.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/EncodedWord.cpp b/src/EncodedWord.cpp
index 59e5915..7d61c80 100644
--- a/src/EncodedWord.cpp
+++ b/src/EncodedWord.cpp
@@ -132,7 +132,7 @@ std::string EncodedWord::Decode(const std::string& input)
 						encdata = DKIM::Conversion::Base64_Decode(encdata);
 						break;
 					}
-				} catch(...) {
+				} catch (const DKIM::PermanentError&) {
 				}
 				fail = true;
 			} while (false);
-- 
2.43.0


From 9aea7de1a37ff1e22b962adb5e9437ee85878a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:32 +0000
Subject: [PATCH 42/49] fix: DelHeaders read freed memory when given the
 options' own header list

---
 src/SignatoryOptions.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/SignatoryOptions.cpp b/src/SignatoryOptions.cpp
index 0ddfefe..a6963ad 100644
--- a/src/SignatoryOptions.cpp
+++ b/src/SignatoryOptions.cpp
@@ -216,7 +216,9 @@ SignatoryOptions& SignatoryOptions::AddHeaders(const std::list<std::string>& hea
 
 SignatoryOptions& SignatoryOptions::DelHeaders(const std::list<std::string>& headers)
 {
-	for (const auto & header : headers)
+	// a copy, as the list may be our own
+	const std::list<std::string> names(headers);
+	for (const auto & header : names)
 		m_headers.remove_if([&header] (const std::string& name) { return strcasecmp(name.c_str(), header.c_str()) == 0; });
 	return *this;
 }
-- 
2.43.0


From 4ffc162eb4fbe031d1aac0d5a2a7707ab9e9cbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:04 +0000
Subject: [PATCH 43/49] fix: assigning a PublicKey freed its RSA key twice

---
 src/PublicKey.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PublicKey.hpp b/src/PublicKey.hpp
index b26d0a2..2d51d1f 100644
--- a/src/PublicKey.hpp
+++ b/src/PublicKey.hpp
@@ -75,6 +75,7 @@ namespace DKIM {
 			}
 		private:
 			PublicKey(const PublicKey&);
+			PublicKey& operator=(const PublicKey&);
 
 			TagList m_tagList;
 
-- 
2.43.0


From 2ebbee3f1b5486db2f7aeccf5a593d3eb256eeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:04 +0000
Subject: [PATCH 44/49] fix: assigned SignatoryOptions pointed into the options
 they were assigned from

---
 src/SignatoryOptions.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SignatoryOptions.hpp b/src/SignatoryOptions.hpp
index 7ec9509..8d39126 100644
--- a/src/SignatoryOptions.hpp
+++ b/src/SignatoryOptions.hpp
@@ -136,6 +136,7 @@ namespace DKIM
 			{ return m_identity; }
 		private:
 			SignatoryOptions(const SignatoryOptions&);
+			SignatoryOptions& operator=(const SignatoryOptions&);
 
 			RSA** m_privateKeyRSA;
 			bool* m_privateKeyRSAFree;
-- 
2.43.0


From 1e14d06ae701c00a05594f5119bfa74d9765702a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:04 +0000
Subject: [PATCH 45/49] fix: a copied Resolver closed the resolver state of the
 original

---
 src/Resolver.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Resolver.hpp b/src/Resolver.hpp
index b43492d..06551ee 100644
--- a/src/Resolver.hpp
+++ b/src/Resolver.hpp
@@ -38,6 +38,9 @@ namespace DKIM {
 
 				bool GetTXT(const std::string& domain, std::string& result);
 			private:
+				Resolver(const Resolver&);
+				Resolver& operator=(const Resolver&);
+
 				struct __res_state m_res;	
 		};
 	}
-- 
2.43.0


From 4821f48008e0dae1e9ef800bbb852d1014d1ba5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:04 +0000
Subject: [PATCH 46/49] fix: a message copied inside a folded header field was
 extended by the lines of its copy

---
 src/MailParser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/MailParser.cpp b/src/MailParser.cpp
index e8b60b5..e7f0630 100644
--- a/src/MailParser.cpp
+++ b/src/MailParser.cpp
@@ -132,6 +132,11 @@ bool Message::ParseLine(std::istream& stream)
 			m_header.push_back(m_tmpHeader);
 		m_tmpHeader.reset(new Header());
 	}
+	else if (m_tmpHeader.use_count() > 1)
+	{
+		// shared with a copy of this message
+		m_tmpHeader = std::make_shared<Header>(*m_tmpHeader);
+	}
 
 	if (!m_tmpHeader.get())
 		m_tmpHeader.reset(new Header());
-- 
2.43.0


From 7e553233359825ed05be35626b29086a2aa91571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:09 +0000
Subject: [PATCH 47/49] fix: names were compared by the rules of the process's
 locale, so DKIM-Signature was not found in a Turkish one

---
 src/Canonicalization.cpp |  2 +-
 src/Signatory.cpp        |  6 +++---
 src/SignatoryOptions.cpp |  2 +-
 src/Signature.cpp        |  6 +++---
 src/Util.cpp             | 10 ++++++++++
 src/Util.hpp             |  5 +++++
 src/Validatory.cpp       |  6 +++---
 7 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/Canonicalization.cpp b/src/Canonicalization.cpp
index 9bbf39b..df3eca4 100644
--- a/src/Canonicalization.cpp
+++ b/src/Canonicalization.cpp
@@ -63,7 +63,7 @@ std::string CanonicalizationHeader::FilterHeader(const std::string& input) const
 					input.c_str()
 					)
 				);
-	transform(output.begin(), colon, output.begin(), tolower);
+	transform(output.begin(), colon, output.begin(), DKIM::Util::ToLower);
 
 	/**
 	 * Unfold all header field continuation lines as described in
diff --git a/src/Signatory.cpp b/src/Signatory.cpp
index 773ed1c..230fa55 100644
--- a/src/Signatory.cpp
+++ b/src/Signatory.cpp
@@ -110,7 +110,7 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 	std::set<std::string> headersToSign;
 	for (auto name : options.GetHeaders())
 	{
-		transform(name.begin(), name.end(), name.begin(), tolower);
+		transform(name.begin(), name.end(), name.begin(), DKIM::Util::ToLower);
 		headersToSign.insert(name);
 	}
 
@@ -122,7 +122,7 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 	auto oversign = options.GetOversignHeaders();
 	for (auto & i : oversign)
 	{
-		transform(i.begin(), i.end(), i.begin(), tolower);
+		transform(i.begin(), i.end(), i.begin(), DKIM::Util::ToLower);
 		headersToSign.insert(i);
 	}
 
@@ -131,7 +131,7 @@ std::string Signatory::CreateSignature(const SignatoryOptions& options)
 	for (auto h = headers.rbegin(); h != headers.rend(); ++h)
 	{
 		std::string name = (*h)->GetName();
-		transform(name.begin(), name.end(), name.begin(), tolower);
+		transform(name.begin(), name.end(), name.begin(), DKIM::Util::ToLower);
 		if (!name.empty())
 		{
 			// the name could not be read back from the tag-list
diff --git a/src/SignatoryOptions.cpp b/src/SignatoryOptions.cpp
index a6963ad..289b8f2 100644
--- a/src/SignatoryOptions.cpp
+++ b/src/SignatoryOptions.cpp
@@ -219,7 +219,7 @@ SignatoryOptions& SignatoryOptions::DelHeaders(const std::list<std::string>& hea
 	// a copy, as the list may be our own
 	const std::list<std::string> names(headers);
 	for (const auto & header : names)
-		m_headers.remove_if([&header] (const std::string& name) { return strcasecmp(name.c_str(), header.c_str()) == 0; });
+		m_headers.remove_if([&header] (const std::string& name) { return DKIM::Util::EqualNoCase(name, header); });
 	return *this;
 }
 
diff --git a/src/Signature.cpp b/src/Signature.cpp
index 6dbef5b..c959cfc 100644
--- a/src/Signature.cpp
+++ b/src/Signature.cpp
@@ -75,7 +75,7 @@ void Signature::Parse(const std::shared_ptr<DKIM::Header> header)
 	m_tagList.Parse(header->GetHeader().substr(header->GetValueOffset()));
 
 	std::string headerName = header->GetName();
-	transform(headerName.begin(), headerName.end(), headerName.begin(), tolower);
+	transform(headerName.begin(), headerName.end(), headerName.begin(), DKIM::Util::ToLower);
 	if (headerName == "arc-message-signature")
 		m_arc = true;
 
@@ -88,7 +88,7 @@ void Signature::Parse(const std::shared_ptr<DKIM::Header> header)
 	if (!m_tagList.GetTag("d", d) || d.GetValue().empty())
 		throw DKIM::PermanentError("Missing domain of the signing entity (d)");
 	m_domain = d.GetValue();
-	transform(m_domain.begin(), m_domain.end(), m_domain.begin(), tolower);
+	transform(m_domain.begin(), m_domain.end(), m_domain.begin(), DKIM::Util::ToLower);
 
 	// Version
 	if (!m_arc)
@@ -241,7 +241,7 @@ void Signature::Parse(const std::shared_ptr<DKIM::Header> header)
 
 			// m_mailDomain should be matched in lower-case
 			m_mailDomain = mail.substr(mailsep+1);
-			transform(m_mailDomain.begin(), m_mailDomain.end(), m_mailDomain.begin(), tolower);
+			transform(m_mailDomain.begin(), m_mailDomain.end(), m_mailDomain.begin(), DKIM::Util::ToLower);
 
 			if (m_mailDomain == m_domain) {
 				// same domain
diff --git a/src/Util.cpp b/src/Util.cpp
index 6ad9583..36bbaeb 100644
--- a/src/Util.cpp
+++ b/src/Util.cpp
@@ -110,3 +110,13 @@ bool DKIM::Util::ValidateDomain(const std::string& domain)
 
 	return ValidateSubDomain(domain.substr(lpos));
 }
+
+bool DKIM::Util::EqualNoCase(const std::string& a, const std::string& b)
+{
+	if (a.size() != b.size())
+		return false;
+	for (size_t i = 0; i < a.size(); ++i)
+		if (ToLower(a[i]) != ToLower(b[i]))
+			return false;
+	return true;
+}
diff --git a/src/Util.hpp b/src/Util.hpp
index 9024903..5128237 100644
--- a/src/Util.hpp
+++ b/src/Util.hpp
@@ -32,6 +32,11 @@ namespace DKIM {
 		std::string StringFormat(const char* fmt, ...)
 			__attribute__((format(printf, 1, 2)));
 		bool ValidateDomain(const std::string& domain);
+
+		// unlike tolower() and strcasecmp() independent of the locale
+		inline char ToLower(char c)
+		{ return c >= 'A' && c <= 'Z' ? (char)(c - 'A' + 'a') : c; }
+		bool EqualNoCase(const std::string& a, const std::string& b);
 	}
 }
 
diff --git a/src/Validatory.cpp b/src/Validatory.cpp
index 10b9970..927e47c 100644
--- a/src/Validatory.cpp
+++ b/src/Validatory.cpp
@@ -57,7 +57,7 @@ Validatory::Validatory(std::istream& stream, ValidatorType type)
 	{
 		// headers should be matched in lower-case
 		std::string headerName = (*i)->GetName();
-		transform(headerName.begin(), headerName.end(), headerName.begin(), tolower);
+		transform(headerName.begin(), headerName.end(), headerName.begin(), DKIM::Util::ToLower);
 
 		// collect all signatures
 		if ((type == DKIM && headerName == "dkim-signature") ||
@@ -215,7 +215,7 @@ void Validatory::CheckSignature(const std::shared_ptr<DKIM::Header> header,
 			continue;
 
 		std::string headerName = hIter->GetName();
-		transform(headerName.begin(), headerName.end(), headerName.begin(), tolower);
+		transform(headerName.begin(), headerName.end(), headerName.begin(), DKIM::Util::ToLower);
 		headerCache[headerName].push_back(hIter);
 	}
 
@@ -223,7 +223,7 @@ void Validatory::CheckSignature(const std::shared_ptr<DKIM::Header> header,
 	for (auto name : sig.GetSignedHeaders())
 	{
 		std::string tmp;
-		transform(name.begin(), name.end(), name.begin(), tolower);
+		transform(name.begin(), name.end(), name.begin(), DKIM::Util::ToLower);
 
 		std::map<std::string, Message::HeaderList>::iterator head = headerCache.find(name);
 
-- 
2.43.0


From 7b88ea30d56cd525d9466fcca5ae4765813773f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:50 +0000
Subject: [PATCH 48/49] fix: a run of blank lines in the body was collected in
 memory

---
 src/Canonicalization.cpp | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/Canonicalization.cpp b/src/Canonicalization.cpp
index df3eca4..a43586a 100644
--- a/src/Canonicalization.cpp
+++ b/src/Canonicalization.cpp
@@ -129,6 +129,20 @@ std::string CanonicalizationHeader::FilterHeader(const std::string& input) const
 bool DKIM::Conversion::CanonicalizationBody(std::istream& stream, DKIM::CanonMode type, ssize_t bodyOffset, bool bodyLimit, size_t bodySize, std::function<void(const char *, size_t)> func)
 {
 	bool emptyBody = true;
+	auto flush = [&] (const std::string& buf)
+	{
+		if (bodyLimit)
+		{
+			size_t left = std::min(buf.size(), bodySize);
+			func(buf.c_str(), left);
+			bodySize -= left;
+		} else {
+			func(buf.c_str(), buf.size());
+		}
+
+		if (!buf.empty())
+			emptyBody = false;
+	};
 
 	// if we have a message: seek to GetBodyOffset()
 	if (bodyOffset != -1)
@@ -177,6 +191,13 @@ bool DKIM::Conversion::CanonicalizationBody(std::istream& stream, DKIM::CanonMod
 				{
 					buf += "\r\n";
 					--lines;
+
+					// there may be any number of them
+					if (buf.size() >= sizeof buffer)
+					{
+						flush(buf);
+						buf.clear();
+					}
 				}
 
 				/*
@@ -192,17 +213,7 @@ bool DKIM::Conversion::CanonicalizationBody(std::istream& stream, DKIM::CanonMod
 				buf += buffer[i];
 			}
 
-			if (bodyLimit)
-			{
-				size_t left = std::min(buf.size(), bodySize);
-				func(buf.c_str(), left);
-				bodySize -= left;
-			} else {
-				func(buf.c_str(), buf.size());
-			}
-
-			if (!buf.empty())
-				emptyBody = false;
+			flush(buf);
 		}
 
 		if (stream.bad())
-- 
2.43.0


From 0e69c78b4f83c1c9a1261e16cd65f001be34df34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:52 +0000
Subject: [PATCH 49/49] fix: refuse an Ed25519 key whose public half does not
 belong to its seed

---
 src/SignatoryOptions.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/SignatoryOptions.cpp b/src/SignatoryOptions.cpp
index 289b8f2..a7294fa 100644
--- a/src/SignatoryOptions.cpp
+++ b/src/SignatoryOptions.cpp
@@ -143,15 +143,22 @@ SignatoryOptions& SignatoryOptions::SetPrivateKey(const std::string& privatekey)
 				crypto_sign_seed_keypair(pk, sk, (const unsigned char *)seed.c_str());
 				return std::string((char*)sk, crypto_sign_SECRETKEYBYTES);
 			};
+			// a signature made with halves that do not belong together verifies with neither (and gives the key away)
+			auto checked_keypair = [&seed_keypair](const std::string& keypair) -> std::string
+			{
+				if (seed_keypair(keypair.substr(0, crypto_sign_SEEDBYTES)) != keypair)
+					throw DKIM::PermanentError("ED25519 key does not match its public key");
+				return keypair;
+			};
 			if (privatekey.size() == crypto_sign_SECRETKEYBYTES)
-				*m_privateKeyED25519 = privatekey;
+				*m_privateKeyED25519 = checked_keypair(privatekey);
 			else if (privatekey.size() == crypto_sign_SEEDBYTES)
 				*m_privateKeyED25519 = seed_keypair(privatekey);
 			else
 			{
 				std::string tmp = DKIM::Conversion::Base64_Decode(privatekey);
 				if (tmp.size() == crypto_sign_SECRETKEYBYTES)
-					*m_privateKeyED25519 = tmp;
+					*m_privateKeyED25519 = checked_keypair(tmp);
 				else if (tmp.size() == crypto_sign_SEEDBYTES)
 					*m_privateKeyED25519 = seed_keypair(tmp);
 				else
@@ -421,15 +428,22 @@ AdditionalSignaturesOptions& AdditionalSignaturesOptions::SetPrivateKey(const st
 				crypto_sign_seed_keypair(pk, sk, (const unsigned char *)seed.c_str());
 				return std::string((char*)sk, crypto_sign_SECRETKEYBYTES);
 			};
+			// a signature made with halves that do not belong together verifies with neither (and gives the key away)
+			auto checked_keypair = [&seed_keypair](const std::string& keypair) -> std::string
+			{
+				if (seed_keypair(keypair.substr(0, crypto_sign_SEEDBYTES)) != keypair)
+					throw DKIM::PermanentError("ED25519 key does not match its public key");
+				return keypair;
+			};
 			if (privatekey.size() == crypto_sign_SECRETKEYBYTES)
-				m_privateKeyED25519 = privatekey;
+				m_privateKeyED25519 = checked_keypair(privatekey);
 			else if (privatekey.size() == crypto_sign_SEEDBYTES)
 				m_privateKeyED25519 = seed_keypair(privatekey);
 			else
 			{
 				std::string tmp = DKIM::Conversion::Base64_Decode(privatekey);
 				if (tmp.size() == crypto_sign_SECRETKEYBYTES)
-					m_privateKeyED25519 = tmp;
+					m_privateKeyED25519 = checked_keypair(tmp);
 				else if (tmp.size() == crypto_sign_SEEDBYTES)
 					m_privateKeyED25519 = seed_keypair(tmp);
 				else
-- 
2.43.0

