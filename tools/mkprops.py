#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit the statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})
S = "src/"
p("C01", "Whatever the signer signs, the verifier accepts",
  "For every message with a From field (whose text begins with a header field) and every configuration the signer accepts (rsa-sha1, rsa-sha256 or ed25519-sha256; any canonicalization pair; any header selection and oversigning that covers From, oversigning the signature field's own name only with a single signature; body length limit; timestamp; unexpired expiry; identity inside the signing domain; ARC instance 1 to 50; any number of additional signatures with their own key, algorithm, domain and selector), each signature field the signer returns verifies against the public key that belongs to it once the returned text and CRLF are put in front of that message. The signer returns exactly one field per configured signature.",
  ["inputs", "configurations"], "all messages (any bytes, any line endings, any body size) crossed with all signer configurations",
  "SignatoryTest signs two tiny one-header messages with one RSA key, simple/simple only; no Ed25519, relaxed, ARC, oversigning, identity, expiry or additional signature is ever signed.",
  [S+"Signatory.cpp", S+"SignatoryOptions.cpp", S+"Validatory.cpp", S+"Signature.cpp", S+"Canonicalization.cpp"],
  [("signing", "Signatory::CreateSignature"), ("verification", "Validatory::GetSignature / CheckSignature")],
  ["Signatory::CreateSignature return value", "Validatory verdict"])
p("C02", "Tampering with signed content is always detected",
  "After a message has been signed, any change that alters the canonical form of a signed header field instance, of the signed part of the body, or of the signature field itself (other than the b= value's whitespace), makes verification of that signature fail, and so does a changed signature value or another public key. Nothing but the exact signed content under the matching key is ever reported as verified.",
  ["inputs", "histories"], "all signed messages and all later edits of message, signature field and key",
  "No existing test modifies a signed message or uses a wrong key; every verification in the tests expects success.",
  [S+"Validatory.cpp", S+"Canonicalization.cpp", S+"Signature.cpp"],
  [("body hash comparison", "Validatory::CheckBodyHash"), ("header hash and RSA/Ed25519 verification", "Validatory::CheckSignature")],
  ["Validatory::GetSignature / CheckSignature outcome"])
p("C03", "Signatures from any conforming RFC 6376 signer verify",
  "A signature made by an independent RFC 6376 / RFC 8463 signer verifies whatever legal layout its field uses: any tag order, folding and white space around tags and inside b=, bh= and h= (white space around the b= value is not part of the signed text), any letter case of field names, optional tags present or absent, unknown tags, q= lists that contain dns/txt, h= entries that are repeated or name absent fields, and any position of the field among the headers. On any other input the verdict (pass, fail, permerror) is the one those rules give.",
  ["inputs", "programs"], "all layouts of signature fields produced by other implementations, all messages",
  "The tests only verify fields produced by the library's own signer in its one fixed layout.",
  [S+"Validatory.cpp", S+"Signature.cpp", S+"TagList.cpp", S+"Tokenizer.cpp", S+"Canonicalization.cpp", S+"Base64.cpp"],
  [("tag list parsing", "TagList::Parse"), ("b= removal and header hashing", "Validatory::CheckSignature")],
  ["Validatory verdict"])
p("C04", "The emitted signature field states the truth",
  "Each field the signer returns is one well-formed folded header field whose tags say exactly what was configured: v or i (ARC), a (of that signature's own key), c, d, s, i, l, t, x, with bh the hash of the (length limited) canonical body and b a signature, by the configured key, over the listed header instances followed by the field itself. h= lists, lower-cased and bottom-up, every instance of a selected or oversigned header field (or, if nothing is selected, of every field whose name can stand in that list) and then each oversigned name, and nothing else.",
  ["inputs", "configurations"], "all messages and signer configurations",
  "SignatoryTest only asks whether the library's own verifier accepts the field; a signer and verifier that are wrong in the same way, or a missing/false tag the verifier ignores (t, x, l, i, h), goes unnoticed.",
  [S+"Signatory.cpp", S+"SignatoryOptions.cpp", S+"Util.cpp", S+"Base64.cpp", S+"QuotedPrintable.cpp"],
  [("field construction", "Signatory::CreateSignature")], ["text returned by Signatory::CreateSignature"])
p("C05", "Body canonicalization is exactly RFC 6376 simple/relaxed",
  "For every body, body position, mode and length limit, the bytes handed on are the first l bytes of the canonical body: lines end in CRLF whether they came as CRLF or LF (stray CRs are dropped), relaxed collapses runs of SP/TAB to one SP and removes them at line ends, trailing empty lines are removed and one CRLF ends the body (an empty body gives CRLF in simple and nothing in relaxed). The result does not depend on how the stream is chunked or on body size, and the caller is told whether the limit exceeded what is there.",
  ["inputs"], "all byte strings of any length, both modes, all limits and offsets",
  "CanonicalizationTest checks three short bodies, none longer than the internal read buffer, none with a limit or offset, none with LF line ends or missing final newline.",
  [S+"Canonicalization.cpp"], [("streaming canonicalizer", "CanonicalizationBody")],
  ["callback bytes and return value of CanonicalizationBody", "bh= of created signatures"],
  [{"name": "pending white space / pending empty lines", "meaning": "state carried across read chunks", "where": "CanonicalizationBody"}])
p("C06", "Header canonicalization is exactly RFC 6376 simple/relaxed",
  "For every header field obtained from a message, simple canonicalization returns it unchanged and relaxed canonicalization lower-cases the name only, unfolds, reduces every run of white space to one space, removes white space at the end and around the first colon, and changes no other byte; a CR that is not part of a line break is refused. Relaxed canonicalization is idempotent and depends only on name and unfolded value.",
  ["inputs"], "all header fields, both modes",
  "CanonicalizationTest has one simple and six relaxed examples; 8-bit bytes, empty values, colons inside values, multiple folds and white-space-only lines are not covered.",
  [S+"Canonicalization.cpp", S+"Tokenizer.cpp"], [("header canonicalizer", "CanonicalizationHeader::FilterHeader"), ("FWS reader", "Tokenizer::ReadWhiteSpace")],
  ["CanonicalizationHeader::FilterHeader return value"])
p("C07", "Messages are split into fields and body without loss",
  "Parsing any message yields, in order, one entry per header field with its complete original text (continuation lines joined by CRLF), its name (the text before the first colon without surrounding white space; empty if there is no colon) and the position of the value, and the body position is exactly behind the first empty line, or absent if there is none. CRLF and LF line ends give the same fields, and fields plus body account for every byte of the message.",
  ["inputs"], "all byte strings, all line-ending styles",
  "MailParserTest covers five small messages; LF line ends, empty continuation lines, empty values, NUL/8-bit bytes, very long lines, CR corner cases are not covered.",
  [S+"MailParser.cpp"], [("line parser", "Message::ParseLine, Header::ParseLine")],
  ["Message::GetHeaders / GetBodyOffset, Header::GetName / GetHeader / GetValueOffset"])
p("C08", "Tag lists and value lists are parsed exactly",
  "A tag list is accepted exactly when it matches the RFC 6376 tag-list grammar (white space and line breaks allowed around names and values; a name is made of letters, digits and underscores; the list may be empty) with no repeated name; each value is returned with surrounding white space removed, inner white space kept and its exact position, names are case sensitive and unknown tags are kept. A colon-separated value list yields its elements trimmed and in order, and an empty element (other than after a trailing colon) is refused.",
  ["inputs"], "all byte strings",
  "TagListTest and TokenizerTest contain about a dozen examples each and never check value positions, duplicates, illegal bytes or case sensitivity.",
  [S+"TagList.cpp", S+"Tokenizer.cpp"], [("tag list parser", "TagList::Parse"), ("value list", "Tokenizer::ValueList")],
  ["TagList::GetTag / cbegin / cend", "Tokenizer::ValueList"])
p("C09", "Malformed signature fields are refused, valid ones read exactly",
  "A signature field is accepted only if it has v=1 (or, for ARC, an instance i= of 1 to 50), a supported a=, non-empty b=, bh=, d=, s=, an h= that includes From, and, where present, a supported c=, a q= that offers dns/txt and an l= of 1 to 76 decimal digits that fits a signed long; otherwise it is refused with a permanent error. For an accepted field every reported property (algorithms, canonicalization with its defaults, lower-cased domain, selector, header list, length limit, decoded signature and body hash, ARC instance) is the one written in the field.",
  ["inputs"], "all signature fields",
  "There is no test of the signature parser: the only fields ever parsed are the signer's own, and no malformed field is tried.",
  [S+"Signature.cpp", S+"TagList.cpp"], [("validation", "Signature::Parse")], ["Signature::Parse outcome and getters"])
p("C10", "Expired signatures never verify",
  "A signature whose x= lies in the past, or is not a number, is refused however valid it is otherwise, and one whose x= lies in the future (arbitrarily far, beyond 32 bits included) is not refused for it; the verdict follows the current time at each parse. The signer emits x= exactly as configured: an absolute time as given, a relative one counted from the signature's own timestamp or, without one, from the time of signing.",
  ["inputs", "configurations", "histories"], "all expiry values relative to the clock, absolute and relative configuration, with and without timestamp",
  "No test sets a timestamp or an expiry, and no test verifies a signature carrying x=.",
  [S+"Signature.cpp", S+"Signatory.cpp", S+"SignatoryOptions.cpp"], [("expiry check", "Signature::Parse"), ("expiry emission", "Signatory::CreateSignature")],
  ["Signature::Parse outcome", "x= and t= tags of created signatures"])
p("C11", "The signing identity never leaves the signing domain",
  "A signature is accepted only if the domain of its i= identity (decoded, compared without regard to case) equals d= or is a subdomain of it at a label boundary; without i= the identity is the domain itself with an empty local part. If the key record carries the s flag the two domains must be equal, except for ARC signatures, and the local part and domain reported are the decoded ones.",
  ["inputs"], "all i=/d= pairs and key flags, all encodings of the identity",
  "No test has an i= tag; the only key with t=s is used without an identity.",
  [S+"Signature.cpp", S+"Validatory.cpp", S+"QuotedPrintable.cpp"], [("i/d alignment", "Signature::Parse"), ("flag s", "Validatory::CheckSignature")],
  ["Signature::Parse outcome, GetMailDomain, GetMailLocalPart", "Validatory::CheckSignature outcome"])
p("C12", "Key records are read exactly and their restrictions enforced",
  "A key record is usable only if v (if present) is DKIM1, k (if present) is rsa or ed25519, p holds a key of that type (an empty p means revoked), h (if present) allows the signature's hash algorithm (a list of only unknown algorithms allows none), and s (if present) lists email or *; unknown tags and list members are ignored. A signature never verifies under a key whose type, allowed hashes or service do not fit it, and the reported flags (testing mode y, strict s) are those of the record.",
  ["inputs"], "all key records crossed with all signature algorithms",
  "Only one well-formed RSA record is parsed in the tests; h=, k=, s=, v=, revoked or mismatching keys are never tried.",
  [S+"PublicKey.cpp", S+"PublicKey.hpp", S+"Validatory.cpp"], [("record parser", "PublicKey::Parse"), ("restrictions", "Validatory::CheckSignature")],
  ["PublicKey::Parse outcome and getters", "Validatory::CheckSignature outcome"])
p("C13", "Key lookups ask the right name and classify failures right",
  "To verify a signature the key is looked up under exactly <selector>._domainkey.<lower-cased domain>, through the installed resolver callback (with the caller's data pointer) if there is one and through DNS TXT otherwise. A lookup that fails is a temporary error, a lookup that succeeds without a record is a permanent error, and a returned record is used in full.",
  ["inputs", "fault_sequences"], "all selectors and domains, all resolver outcomes",
  "No test performs a key lookup; all tests hand the key record to the parser directly.",
  [S+"Validatory.cpp", S+"Resolver.cpp"], [("lookup", "Validatory::GetPublicKey"), ("DNS query", "Resolver::GetTXT")],
  ["queried names seen by the callback / by the DNS stub", "exception type", "parsed key"])
p("C14", "DNS answers are decoded completely and never over-read",
  "For every well-formed DNS response the text returned is the concatenation of all strings of all TXT records of the answer section in order, whatever the names, compression, other record types (such as CNAME), string lengths and record sizes; no data and no such domain count as an empty success and a server failure as a failed lookup. For a malformed or cut-off response nothing beyond the received bytes is read and no text is returned that is not TXT string data of the response.",
  ["inputs", "fault_sequences"], "all DNS responses up to 64 KiB, all cut-off points and byte corruptions, all resolver error codes",
  "The resolver has no test at all.",
  [S+"Resolver.cpp"], [("answer walk", "Resolver::GetTXT")], ["Resolver::GetTXT return value and result (DNS client replaced by a stub that serves generated packets)"])
p("C15", "Base64 and quoted-printable codecs are exact inverses",
  "For every byte string, Base64 encoding gives the standard padded text without line breaks and decoding that text gives the bytes back, at any length. DKIM-quoted-printable encoding produces only the characters RFC 6376 allows unencoded (everything else as =XX in upper case), decoding it gives the bytes back, and decoding refuses any = not followed by two upper-case hex digits and any character that must be encoded, ignoring only folding white space.",
  ["inputs"], "all byte strings of any length",
  "Base64Test and QuotedPrintableTest check one 77 byte text and a dozen short literals; quoted-printable encoding is never tested.",
  [S+"Base64.cpp", S+"QuotedPrintable.cpp"], [("codecs", "Base64_Encode / Base64_Decode / QuotedPrintable::Encode / Decode")],
  ["codec return values and exceptions"])
p("C16", "Encoded words are decoded and everything else is kept",
  "Every RFC 2047 encoded word with encoding Q or B (either case) that is delimited by white space or the end of text is replaced by its decoded bytes (in Q, _ is a space) and the white space in front of it is dropped. Anything that is not a valid encoded word (unknown encoding, undecodable Q text, missing delimiters, unterminated) is passed through byte for byte, except that line breaks and the white space at both ends of the whole text are removed.",
  ["inputs"], "all header texts mixing encoded words, near misses and plain text",
  "EncodedWordTest uses about eighteen short literals, none with B encoding, none unterminated or undecodable except an unknown encoding letter.",
  [S+"EncodedWord.cpp", S+"QuotedPrintable.cpp", S+"Base64.cpp", S+"Tokenizer.cpp"], [("decoder", "EncodedWord::Decode")], ["EncodedWord::Decode return value"])
p("C17", "Address lists yield exactly the addresses written in them",
  "From an address field (RFC 5322 mailboxes and groups, in any mix of display names, quoted strings, comments, folding and commas inside unquoted display names) exactly the addr-specs are returned, in order, with comments and white space removed and quoted pairs resolved; a quoted string that stands alone is itself read as an address list. Unclosed quotes, comments or angle brackets, dangling escapes and NUL bytes are refused, and no byte value inside a quoted string is mistaken for the end of input.",
  ["inputs"], "all address fields",
  "TokenizerTest has ten hand-written examples.",
  [S+"Tokenizer.cpp"], [("tokenizer", "Tokenizer::NextAddressListToken"), ("list parser", "Tokenizer::ParseAddressList")], ["Tokenizer::ParseAddressList return value and exceptions"])
p("C18", "Header instances are bound bottom-up and oversigning seals names",
  "The n-th occurrence of a name in h= denotes the n-th field of that name counted from the bottom of the message, compared without regard to case; occurrences beyond the fields present denote nothing. Hence adding, removing or reordering fields invalidates a signature exactly when it changes the sequence of denoted fields: a field added above the signed ones, or with an unlisted name, does no harm, one added below them or of an oversigned name always does; the signature field being verified is never one of the denoted fields.",
  ["inputs", "histories"], "all messages with repeated fields, all h= lists, all insertions, deletions and reorderings of fields",
  "The tests sign messages with a single header field and never oversign.",
  [S+"Validatory.cpp", S+"Signatory.cpp"], [("instance selection", "Validatory::CheckSignature header cache"), ("signing order", "Signatory::CreateSignature")],
  ["verdict before and after header edits", "h= of created signatures"])
p("C19", "A body length limit covers exactly the first l bytes",
  "With l=n, verification depends on exactly the first n bytes of the canonical body: data appended behind them never matters, and any change to the canonical form of the first n bytes always does; without l= the whole body counts. The signer refuses a limit larger than the canonical body and otherwise emits l=n with the hash of exactly those n bytes, n=0 included.",
  ["inputs", "configurations"], "all bodies, all limits including 0, the exact length and beyond, all appended or altered data",
  "SignatoryTest only uses l=0 and never alters or appends body data.",
  [S+"Canonicalization.cpp", S+"Signatory.cpp", S+"Validatory.cpp", S+"Signature.cpp"], [("limit", "CanonicalizationBody bodyLimit/bodySize"), ("refusal", "Signatory::CreateSignature")],
  ["verdict before and after body edits", "l=/bh= of created signatures", "signing errors"])
p("C20", "Signatures survive harmless transport rewriting",
  "A relaxed/relaxed signature still verifies after refolding, changed amounts of white space, changed letter case of field names, CRLF/LF conversion, white space added at line ends, empty lines appended to the body, and new unsigned or trace fields added on top; a simple/simple signature still verifies after CRLF/LF conversion, appended empty lines and fields added on top. The canonicalization of header and body are independent: each part tolerates exactly what its own mode tolerates.",
  ["inputs", "histories"], "all signed messages and all sequences of such rewritings",
  "No test changes a message between signing and verification.",
  [S+"Canonicalization.cpp", S+"MailParser.cpp", S+"Validatory.cpp"], [("canonicalization", "CanonicalizationHeader / CanonicalizationBody")],
  ["verdict before and after rewriting"])
p("C21", "Configuration and message content cannot inject into the signature",
  "Only domains and selectors made of dot-separated letter/digit/hyphen labels that start and end with a letter or digit are accepted; anything else is refused and the previous value kept. Whatever identity bytes, header names or message content the signer is given, the returned text contains only the configured signature fields with exactly the configured tags: no extra tag, header field, or line can appear.",
  ["inputs", "configurations"], "all strings as domain, selector and identity, all field names found in messages",
  "There is no test of domain/selector validation or of hostile identities or field names.",
  [S+"Util.cpp", S+"SignatoryOptions.cpp", S+"Signatory.cpp", S+"QuotedPrintable.cpp"], [("validation", "Util::ValidateDomain, SetDomain/SetSelector"), ("identity encoding", "QuotedPrintable::Encode")],
  ["setter outcome", "independent parse of the returned text"])
p("C22", "Private keys load in every documented form and only then sign",
  "An RSA key given as PEM, as Base64 DER or as an object, and an Ed25519 key given as 32 byte seed or 64 byte key, raw or Base64, produce the same signature for the same input whichever form was used, for the primary and for additional signatures alike. Unusable key material (a 64 byte Ed25519 key whose public half is not its seed's included) is refused with a permanent error, signing without a key fitting the selected algorithm is refused instead of producing a field, and the key set last is the one used.",
  ["inputs", "configurations"], "all key encodings, key types and orders of option calls",
  "The tests load one RSA key from Base64 DER; PEM, Ed25519, wrong-type, missing and replaced keys are untested.",
  [S+"SignatoryOptions.cpp", S+"Signatory.cpp"], [("key loading", "SignatoryOptions::SetPrivateKey, AdditionalSignaturesOptions::SetPrivateKey"), ("signing", "Signatory::CreateSignature")],
  ["setter outcome", "created signatures compared across key forms"])
p("C23", "Hostile input never causes memory errors or undefined behaviour",
  "Whatever bytes arrive as message, signature field, key record, DNS answer, address or encoded-word text or key material, no operation reads or writes outside its objects, uses uninitialised or freed memory, overflows a buffer handed to the crypto libraries, or executes undefined behaviour. Every operation ends by returning or by throwing.",
  ["inputs"], "all byte strings at every entry point, in all combinations of entry points",
  "The tests run a handful of friendly inputs without any sanitizer.",
  [S+"Validatory.cpp", S+"Signature.cpp", S+"PublicKey.cpp", S+"Resolver.cpp", S+"Tokenizer.cpp", S+"EncodedWord.cpp", S+"QuotedPrintable.cpp", S+"TagList.cpp", S+"Canonicalization.cpp", S+"MailParser.cpp", S+"Base64.cpp", S+"Signatory.cpp", S+"SignatoryOptions.cpp"],
  [("length checks before crypto calls", "Validatory::CheckSignature, PublicKey::Parse"), ("bounds checks", "Resolver::GetTXT")],
  ["AddressSanitizer, UndefinedBehaviorSanitizer, libstdc++ assertions, valgrind memcheck, guarded crypto entry points"])
p("C24", "Only the two documented error kinds, with the right class, ever escape",
  "On any input, parsing, key handling, verification and signing either succeed or throw the library's permanent or temporary error, never another exception. Verification reports class fail exactly when the body hash or the signature does not match, temperror exactly when the key could not be looked up, the message could not be read or a resource was lacking, and permerror for every other refusal, with a non-empty explanation.",
  ["inputs", "fault_sequences"], "all inputs and resolver outcomes",
  "Tests that expect an error only catch std::runtime_error in four parsers; error classes are never looked at.",
  [S+"Exception.hpp", S+"Validatory.cpp", S+"Signature.cpp", S+"PublicKey.cpp", S+"Tokenizer.cpp", S+"QuotedPrintable.cpp", S+"TagList.cpp"],
  [("error classes", "PermanentError / TemporaryError"), ("classification", "Validatory")], ["exception type, getAuthenticationResult, what"])
p("C25", "Work grows only linearly with hostile input size",
  "The work spent on parsing, canonicalizing, signing or verifying grows at most in proportion to the size of the input, whatever its shape: long runs of white space, folds, empty lines, many or huge header fields, tags, list members, encoded words, nested comments and quotes included. No input makes any operation loop forever.",
  ["inputs"], "all input shapes, sizes doubled repeatedly",
  "The tests use inputs of at most a few hundred bytes.",
  [S+"Tokenizer.cpp", S+"MailParser.cpp", S+"TagList.cpp", S+"Canonicalization.cpp", S+"EncodedWord.cpp", S+"Signature.cpp", S+"Validatory.cpp", S+"Signatory.cpp", S+"Base64.cpp", S+"QuotedPrintable.cpp"],
  [("single-pass parsers", "Tokenizer, TagList, Message, Canonicalization")], ["executed basic blocks plus bytes moved or scanned, counted by instrumentation"])
p("C26", "Independent objects can be used from any number of threads",
  "Signing and verifying with separate objects in concurrent threads, also when they share constant options, keys and parsed signatures, involves no data race and gives in every interleaving the results a single thread gives.",
  ["schedules"], "all interleavings of threads that parse, sign, verify, encode, decode and resolve",
  "The tests are single threaded.",
  [S+"Signatory.cpp", S+"Validatory.cpp", S+"Util.cpp", S+"QuotedPrintable.cpp", S+"Resolver.cpp", S+"Tokenizer.cpp", S+"Canonicalization.cpp"],
  [("no shared mutable state", "all sources"), ("per-object resolver state", "Resolver")], ["ThreadSanitizer reports", "results compared with the single-threaded ones"])
p("C27", "No operation leaks memory or file descriptors",
  "However often any operation is repeated, and whether it succeeds or throws (bad keys, malformed input, failed verification, replaced private keys, failed lookups), memory and file descriptors in use return to the same level once its objects are destroyed; nothing is freed twice, and a key object that the caller keeps ownership of is never freed.",
  ["inputs", "histories"], "all operations, success and error paths, all sequences of setter calls",
  "The tests do not look at resources and exercise almost no error path.",
  [S+"PublicKey.cpp", S+"SignatoryOptions.cpp", S+"Signatory.cpp", S+"Validatory.cpp", S+"Base64.cpp", S+"Resolver.cpp"],
  [("ownership", "PublicKey::Reset, AdditionalSignaturesOptions destructor"), ("RAII digests", "Signatory, Validatory")], ["allocator accounting at quiescent points, open descriptors, AddressSanitizer"])
p("C28", "Results do not depend on what happened before",
  "Signing or verifying the same input gives the same result every time: repeated on the same object, after any earlier successful or failed operation in the process, interleaved with other objects on the same stream, with signature and key objects used again (reset or not), and with tag lists and messages used again after a reset.",
  ["histories"], "all sequences of operations before and between the observed one",
  "Each test runs a few calls in a fresh process in a fixed order.",
  [S+"Signatory.cpp", S+"Validatory.cpp", S+"Signature.cpp", S+"PublicKey.cpp", S+"TagList.cpp", S+"MailParser.cpp"],
  [("state reset", "Message::Reset, Signature::Reset, PublicKey::Reset, TagList::Reset"), ("stream repositioning", "CanonicalizationBody")], ["results compared with those of a fresh object in a clean state"])
p("C29", "Read errors never turn into a signature or a pass",
  "If reading the message from a seekable stream fails at any point (an I/O error, not an end of file), or repositioning to the body fails, signing and body verification report an error or give the result of the complete message; they never sign or accept what happened to be read. After the stream has recovered, the same call on a verifier gives the correct result.",
  ["fault_sequences"], "every byte position and every reposition at which the stream can fail, transient or permanent",
  "The tests only use in-memory streams that cannot fail.",
  [S+"Canonicalization.cpp", S+"MailParser.cpp", S+"Signatory.cpp", S+"Validatory.cpp"], [("stream state check", "CanonicalizationBody")], ["outcome of signing / verifying over a fault-injecting stream buffer"])
p("C30", "The command-line tool signs and reports truthfully",
  "The tool's validate mode prints, for every given file and every DKIM (or, with -a, ARC) signature in it, in order, one line with file, domain and selector that says OK exactly when the signature verifies, and otherwise names the error class (fail, permerror, temperror), marked SOFT when it failed against a key that is in testing mode; values taken from the message or from DNS cannot add lines of their own. Its sign mode prints a relaxed/relaxed signature field for the file made with the given key, key type, domain, selector and ARC instance, every documented option works in its long and short form, and missing or unknown options, unusable keys or domains, and message files that cannot be read give a non-zero exit status and no signature.",
  ["inputs", "configurations"], "all option combinations, key files, messages and DNS outcomes",
  "The tool has no test.",
  ["tools/src/main.cpp"], [("option parsing, sign and validate loops", "main")], ["standard output and exit status of the tool run as a process"])
p("C31", "Failing resources never yield a pass, a signature or a wrong result",
  "If a memory allocation or a call into the crypto library (digest, signature, key loading, Base64 buffers) fails at any point of an operation, once or for good, that operation reports an error or gives exactly the result it gives without the fault: nothing is signed or accepted that would not be, no decoded text, key, tag or list comes out truncated or different, and the process does not crash. Nothing is leaked, and the same operation gives its normal result afterwards.",
  ["fault_sequences"], "every allocation and every crypto call of every operation as the point of failure, transient or permanent, over all inputs",
  "The tests never make an allocation or a library call fail.",
  [S+"Signatory.cpp", S+"Validatory.cpp", S+"Canonicalization.hpp", S+"Base64.cpp", S+"EncodedWord.cpp", S+"PublicKey.cpp", S+"SignatoryOptions.cpp", S+"Util.cpp"],
  [("checked digest calls", "Conversion::EVPDigest"), ("checked conversion", "Base64_Decode / Base64_Encode"), ("RAII buffers", "Signatory, Util")], ["results of operations under injected faults compared with those without", "allocator accounting, AddressSanitizer"])
p("C32", "Every signature of a message is found and judged on its own",
  "A verifier lists exactly the fields named DKIM-Signature (for ARC: ARC-Message-Signature; of type NONE: nothing), in any letter case, however many, from top to bottom. The verdict on each of them is the same whatever other signature fields (valid, broken, copied, of either kind) the message carries, unless its own h= names them, and in whatever order, how often and with whatever interleaving of the steps (signature, key, check) they are verified.",
  ["inputs", "histories"], "all messages with any number and mix of signature fields, all orders of checking them",
  "The tests verify messages with one or two signatures, each once and in order.",
  [S+"Validatory.cpp", S+"Signature.cpp", S+"MailParser.cpp"],
  [("collection", "Validatory::Validatory"), ("own header cache per check", "Validatory::CheckSignature")], ["GetSignatures()", "verdicts of the steps GetSignature / GetPublicKey / CheckSignature"])
p("C33", "Signing options hold exactly what was set",
  "After any history of calls the signing options and each of their additional signatures hold, and signing uses, exactly the last accepted value of each setting: a refused call (bad domain, selector, key, oversign list) changes nothing, settings and signatures do not influence each other, header lists are replaced, extended, and reduced (all entries of a name, any letter case) as asked, also with the object's own list, and references to additional signatures stay valid. What was never set has its default: simple/simple, SHA-256, RSA, no l=, t=, x=, i=, instance or oversigning, and the recommended header fields.",
  ["histories"], "all sequences of setter calls, accepted and refused, on options with any number of additional signatures",
  "The tests set each option once and look at signatures of a few configurations.",
  [S+"SignatoryOptions.cpp", S+"SignatoryOptions.hpp", S+"Signatory.cpp"],
  [("validate, then assign", "SignatoryOptions setters"), ("defaults", "SignatoryOptions::SignatoryOptions")], ["getters", "CreateSignature()"])
p("C34", "Copies are values of their own",
  "Wherever a class lets its objects be copied, assigned (to themselves, too) or moved, the result behaves exactly as its source did at that moment, and from then on neither is affected by what is done to the other, its destruction included: no key, buffer, header or resolver state is shared, freed twice or lost. This holds for signing options and their additional signatures, keys, signatures, tag lists, messages in the middle of being parsed, signers, verifiers, resolvers and the error types.",
  ["histories"], "all histories of operations, copies, assignments, moves and destructions over all the classes of the library",
  "The tests copy no object but the options of additional signatures, once.",
  [S+"SignatoryOptions.cpp", S+"SignatoryOptions.hpp", S+"PublicKey.hpp", S+"MailParser.cpp", S+"Resolver.hpp", S+"Signature.hpp", S+"TagList.hpp", S+"Validatory.hpp", S+"Signatory.hpp"],
  [("reference-counted key copy", "AdditionalSignaturesOptions::operator="), ("private copy operations", "PublicKey, SignatoryOptions, Resolver")], ["getters and results of copies and originals", "AddressSanitizer"])
p("C35", "Results do not depend on the process's locale",
  "Whatever locale the process, its C++ streams or the calling thread use (Turkish and other case rules, 8-bit and multi-byte character sets, digit grouping), every operation gives what it gives in the C locale: the same signatures are found, the same fields are signed and matched, names, domains and tags are compared and checked as ASCII, numbers are written and read as plain decimal digits, and a signature made under one locale verifies under another.",
  ["inputs", "configurations"], "all inputs of all entry points under all locales",
  "The tests run in the C locale only.",
  [S+"Util.hpp", S+"Util.cpp", S+"Canonicalization.cpp", S+"Signatory.cpp", S+"Validatory.cpp", S+"Signature.cpp", S+"SignatoryOptions.cpp", S+"TagList.cpp", S+"Tokenizer.cpp"],
  [("ASCII case mapping", "Util::ToLower / Util::EqualNoCase"), ("explicit character ranges", "TagList, QuotedPrintable, ValidateDomain"), ("printf-formatted numbers", "Util::StringFormat")], ["results of all entry points under changed locales compared with those in the C locale"])
p("C36", "Memory use is bounded by the header, not by the body",
  "Signing and verifying read the body as a stream: the memory they hold at any time does not grow with the size of the body, whatever it consists of (one line of any length, blank lines, white space, binary data), in any canonicalization and with any body length limit. For everything else that is read (header fields, tag lists, DNS answers, encoded text, keys) memory stays in proportion to the size of the input, and the depth of the stack grows with no input at all.",
  ["inputs"], "all messages and inputs of any size",
  "The tests' messages have a handful of bytes; no test looks at memory.",
  [S+"Canonicalization.cpp", S+"Signatory.cpp", S+"Validatory.cpp", S+"MailParser.cpp", S+"TagList.cpp", S+"Tokenizer.cpp"],
  [("body read in blocks and handed on to the digest", "CanonicalizationBody"), ("no recursion over input", "all parsers")],
  ["peak of the heap and depth of the stack during each call, over sizes of input"])
p("C37", "A message is read from where the stream stands, whatever the stream is",
  "Signing, verifying and parsing a message give the same result whatever kind of seekable input stream it comes from (strings, files, buffers of any class and size), wherever in the stream it begins (also behind the first 2 or 4 GB), and whatever lies before it; also when several signers and verifiers, for messages at different positions, share one stream, and when its owner moves it or leaves it at its end or failed between the calls. The settings of the stream (formatting flags, exception mask, tie, locale) are afterwards what they were.",
  ["inputs", "histories", "configurations"], "all streams, positions of the message in them, settings and histories of use",
  "The tests read one message per string or file stream, from its beginning.",
  [S+"MailParser.cpp", S+"MailParser.hpp", S+"Canonicalization.cpp", S+"Signatory.cpp", S+"Validatory.cpp"],
  [("position of the body remembered, and gone back to", "Message::ParseLine, CanonicalizationBody")], ["results of signing, verifying and parsing; state of the stream"],
  [{"name": "m_bodyOffset", "meaning": "absolute position of the body in the stream", "where": "Message"}])
p("C38", "Calls have no effects beyond their results",
  "No call of the library reads standard input or writes to standard output or error, makes or leaves open files, changes the working directory, environment, umask, signal handling, timers, limits, locale, rounding mode or the settings of the standard streams, starts processes or leaves threads, or disturbs the states the C library keeps for its caller (rand, strtok, gmtime and the like), whatever its input and outcome. (Asking for the passphrase of an encrypted key, which OpenSSL does, is left open.)",
  ["inputs", "configurations"], "all inputs of all entry points, all states of the process",
  "The tests look at results only.",
  [S+"Signatory.cpp", S+"SignatoryOptions.cpp", S+"Validatory.cpp", S+"Signature.cpp", S+"PublicKey.cpp", S+"Resolver.cpp", S+"Tokenizer.cpp", S+"Util.cpp"],
  [("results through return values and exceptions only", "all entry points")], ["state of the process around each call"])
p("C39", "Private key material never shows",
  "Nothing that comes out of the library or the command-line tool (signature fields, explanations of errors, standard output and error, the system log) holds any part of a private key that was given to it, in whatever notation, whatever the form of the key, whether or not it is usable, and whatever the outcome of the call.",
  ["inputs", "configurations"], "all keys in all forms, whole and damaged, for primary and additional signatures, all outcomes of setting and signing",
  "The tests load one usable key and look at whether signing works.",
  [S+"SignatoryOptions.cpp", S+"Signatory.cpp", "tools/src/main.cpp"],
  [("key loading and its errors", "SignatoryOptions::SetPrivateKey, AdditionalSignaturesOptions::SetPrivateKey"), ("signing and its errors", "Signatory::CreateSignature")],
  ["everything that comes out of setters, signing and the tool"])
p("C40", "Results do not depend on how the library is built",
  "Every operation gives the same result (verdicts, values read, signatures, texts decoded; times and texts of error messages aside) whatever compiler and optimization the library is built with, whether char is signed (as on x86) or unsigned (as on ARM and POWER), and whether or not the system has the re-entrant resolver interface (HAS_RES_NINIT); and in none of these builds does it crash or fail to end.",
  ["inputs", "configurations"], "all inputs of all entry points, builds of the library",
  "The tests run in one build on one machine.",
  [S+"Tokenizer.cpp", S+"TagList.cpp", S+"Canonicalization.cpp", S+"MailParser.cpp", S+"EncodedWord.cpp", S+"QuotedPrintable.cpp", S+"Util.cpp", S+"Resolver.cpp", S+"Signature.cpp"],
  [("characters compared with EOF, classified and used in arithmetic", "all parsers"), ("#ifdef HAS_RES_NINIT", "Resolver")],
  ["results of the same operation in separately built processes"])
p("C41", "The library can be used from the start of the process to its end",
  "Every operation works, and gives the same result, in constructors of static objects, in main, in other threads, in a forked child, in destructors of thread-local objects, in exit handlers and in destructors of static objects of the program (as long as the crypto library and the program's own objects are alive), whether or not the library was used before.",
  ["histories", "inputs"], "all operations in all stages of a process's life, any of them first",
  "The tests run in main.",
  [S+"Util.cpp", S+"Signatory.cpp", S+"SignatoryOptions.cpp", S+"QuotedPrintable.cpp", S+"Tokenizer.cpp", S+"Resolver.cpp"],
  [("tables kept by the library", "static objects of all sources")], ["results and sanitizer reports of each stage"])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w").write("".join(json.dumps(x) + "\n" for x in P))
import re
for x in P:
    assert len(x["title"]) <= 80, x["id"]
    print(x["id"], x["title"])
