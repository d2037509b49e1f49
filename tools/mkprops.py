#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list lives here, one call per property)."""
import json, os
OUT = []
def P(id, title, statement, over, qtext, why, files, state, mechanism, observe):
    assert len(title) <= 80, (id, len(title))
    OUT.append(dict(id=id, title=title, statement=statement,
                    quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                    anchors=dict(files=files, state=[dict(name=state, meaning=state, where=files[0])],
                                 mechanism=[dict(name=mechanism, where=files[0])], observe_at=[observe], hook_needed=None)))

T = "ccnpy/flic/tree/"
N = "ccnpy/flic/name_constructor/"

P("P01", "Publish then retrieve gives back the file",
  "Publishing any non-empty file under any valid configuration and then walking the manifest tree from the published root, with the matching keys, writes back exactly the original bytes, whether the objects were kept in memory or in a packet directory. "
  "A configuration is a naming schema (hashed, prefix, segmented) with its prefixes or its locator, a maximum packet size that the manifests fit in, a tree degree limit of at least 2 or none, optional expiry times, an optional root signature, and optional manifest encryption with a pre-shared AES key (GCM or CCM) or an RSA-OAEP wrapped key.",
  ["inputs", "configurations"],
  "every file content and length, times every combination of schema, prefixes/locators, packet size, degree, expiry, signature and encryption",
  "The tests publish a handful of files with a handful of sizes; whether the last, partly filled, leaf or level comes out right depends on the file length modulo every capacity of the tree, and on the interaction with the naming schema and the encryption overhead.",
  [T+"TreeBuilder.py", T+"Traversal.py", "ccnpy/flic/ManifestTree.py", N+"SchemaImpl.py", "ccnpy/flic/ManifestFactory.py"],
  "the sequence of published packets; the traversal stack and its output",
  "chunking, reverse pre-order tree building, name constructors, pre-order traversal",
  "packets given to the packet writer; bytes written by the traversal")

P("P02", "The published objects form one ordered tree that holds every chunk once",
  "The root manifest points to exactly one top manifest; every other published object is pointed to by exactly one pointer of exactly one published manifest, and every pointer is the hash of a published object (identical objects share a hash, and count as often as they are published). "
  "The pre-order walk of the pointers meets the data objects in file order; inside a manifest the direct data pointers come before the pointers to child manifests. "
  "Below the root, only the leftmost manifest of each level may have fewer pointers than the others of its level.",
  ["inputs", "configurations"],
  "every number of data chunks, pointer capacity, schema and degree limit",
  "Structural faults (a skipped or doubled pointer, a mis-ordered child, an orphan) appear only at particular chunk counts relative to the capacities, far more than the tests sample.",
  [T+"TreeBuilder.py", T+"HashGroupBuilderPair.py", "ccnpy/flic/HashGroupBuilder.py", "ccnpy/flic/ManifestTree.py"],
  "published manifests and their pointers",
  "reverse pre-order construction from the tail of the file",
  "decoded wire format of the published packets")

P("P03", "No packet or manifest exceeds the configured limits",
  "Every data object and every manifest below the root, encrypted or not, named or nameless, with or without expiry time, is no longer on the wire than the configured maximum packet size. "
  "No manifest has more pointers than the configured tree degree. "
  "A configuration whose limits cannot be met is refused with an error before any manifest is published.",
  ["inputs", "configurations"],
  "every file, schema, name length, packet size, degree limit, expiry and encryption configuration",
  "The overhead of names, segment numbers, sizes, expiry times and encryption varies with the configuration and with the position in the tree; only the largest packet of each kind shows an overrun, and that depends on the file size.",
  [T+"ManifestSizeCalculator.py", T+"TreeParameters.py", N+"SchemaImpl.py"],
  "the computed pointers per manifest and payload size",
  "sizing by building the largest packet the tree can need",
  "length of the packets given to the packet writer")

P("P04", "Data objects split the file evenly",
  "When the file is read from a source that gives as many bytes as it is asked for until its end, the payloads of the data objects, in order, concatenate to the file; every data object but the last carries the same number of payload bytes and the last carries between 1 and that many. "
  "That payload size is the largest for which a data object with the largest supported chunk number still fits in the maximum packet size, and data objects are published in file order.",
  ["inputs", "configurations"],
  "every file length and every configuration",
  "Off-by-one errors show at lengths just around multiples of the payload size, which the tests do not try.",
  [N+"SchemaImpl.py", N+"FileMetadata.py"],
  "published data objects",
  "read-ahead chunking with a reserved chunk number",
  "decoded wire format of the data objects")

P("P05", "Size annotations in manifests are truthful",
  "Wherever a manifest carries a subtree size, it equals the number of application bytes reachable below that manifest, or below that hash group when the annotation is in the group; a leaf size equals the number of application bytes of the data objects the hash group itself points to. "
  "The root manifest's subtree size equals the file length, every manifest carries a subtree size when the publisher was asked to annotate nodes, and, when it was asked to annotate groups, every hash group carries its subtree size and every hash group below the root its leaf size.",
  ["inputs", "configurations"],
  "every file, tree shape and annotation option",
  "Tests check the annotation of a few fixed trees; the sum depends on which children are partly filled.",
  [T+"TreeBuilder.py", "ccnpy/flic/HashGroupBuilder.py", "ccnpy/flic/ManifestFactory.py"],
  "NodeData and GroupData of the published manifests",
  "sizes accumulated while pointers are prepended",
  "decoded wire format of the published manifests")

P("P06", "Every object has the name its parent manifest constructs for it",
  "For every pointer of a published tree, the name that the name-constructor definitions in force, the hash group's constructor id, and its start segment number construct is the name of the object pointed to: none for hashed, the prefix for prefix, the prefix plus consecutive numbers for segmented. "
  "Under the segmented schema data objects are numbered consecutively in file order (from 0, or going on where the previous file published with the same name constructor context ended), only the last one carries the final chunk number and it is its own, manifest numbers are never used twice and the top manifest is number 0. "
  "The root has the requested name and holds the definitions (with the configured prefixes or locators), and each object carries exactly the expiry time configured for its kind.",
  ["inputs", "configurations"],
  "every file, tree shape, and schema/prefix/locator/expiry configuration",
  "Numbering is assigned per level while the tree is built from the end, so a wrong start number only shows for particular shapes, and the in-memory reader used by tests hides part of it.",
  [T+"ManifestIdFactory.py", T+"TreeBuilder.py", N+"NameConstructorContext.py", N+"SchemaImplFactory.py", N+"SegmentedSchemaImpl.py", "ccnpy/flic/ManifestTree.py"],
  "names, start segment ids and name-constructor definitions in the published packets",
  "per-level id pools handed out in reverse; name constructor context",
  "decoded wire format of the published packets")

P("P07", "An interrupted publication never leaves a dangling pointer",
  "At every moment of a publication, every pointer of every manifest already handed to the packet writer is the hash of an object that was handed over earlier, and the root manifest is handed over last. "
  "If the writer fails on some object, the publication stops with that error, having handed over exactly the objects before it. "
  "When a publication of distinct objects into an empty directory, with links, is stopped at any file operation, it does not report success, every pointer of a whole manifest in the directory and every whole link there lead to whole objects in it, and publishing again into that directory makes the file retrievable.",
  ["crash_points", "configurations"],
  "every prefix of the sequence of stored objects (crash point), for every file and configuration",
  "Tests only look at completed publications.",
  [T+"TreeBuilder.py", T+"TreeIO.py", "ccnpy/flic/ManifestTree.py", N+"SchemaImpl.py"],
  "the sequence of objects given to the packet writer; the files of a packet directory",
  "children are written before their parents; data first",
  "calls to the packet writer's put; files opened and written in the directory")

P("P08", "A faulty or hostile store never makes retrieval return wrong data",
  "When retrieval starts from the root's hash, or from the name of an RSA-signed root with the signer's key available and no unsigned packet of that name on offer, and files in the packet directory are deleted, truncated, bit-flipped, swapped or replaced by other valid packets, retrieval either writes the exact file or raises an error, and what it wrote before the error is a prefix of the file made of whole data objects. "
  "A packet store that fails on some fetch makes retrieval raise that error with the same guarantee on what was written.",
  ["fault_sequences", "inputs"],
  "every combination of faults on the stored objects and every file and configuration",
  "Tests read back only undamaged stores.",
  [T+"Traversal.py", T+"TreeIO.py", "ccnpy/core/PacketValidator.py"],
  "stored packets; bytes written so far",
  "hash check on load, name check, signature check, pre-order output",
  "bytes written by the traversal and the exception it raises")

P("P09", "Packets round-trip through the CCNx wire format",
  "Every packet that can be built from the supported fields of a content object (name, payload type, payload, expiry time, final chunk number) and the supported validation data serializes to exactly the bytes the CCNx TLV format prescribes, with all inner and outer lengths correct. "
  "Parsing those bytes gives back an equal packet with the same field values, which serializes to the same bytes; saving to and loading from a file does the same.",
  ["inputs"],
  "every combination of optional fields and every field value, including empty and boundary lengths",
  "Tests serialize a few fixed packets; combinations of optional fields, length boundaries (255/256, empty values, numbers of 1 to 8 bytes) are not covered.",
  ["ccnpy/core/Tlv.py", "ccnpy/core/TlvType.py", "ccnpy/core/Packet.py", "ccnpy/core/ContentObject.py", "ccnpy/core/FixedHeader.py", "ccnpy/core/Name.py", "ccnpy/core/Link.py", "ccnpy/core/ValidationAlg.py"],
  "packet field values and wire bytes",
  "TLV encoders and parsers",
  "serialize/deserialize/save/load and the field getters")

P("P10", "Manifests round-trip through the FLIC wire format",
  "Every manifest that can be built from the supported FLIC elements (node data with sizes, digests, locators, name-constructor definitions and vendor data; hash groups with group data and pointers; padding; security contexts, encrypted nodes and tags) serializes to exactly the bytes the FLIC TLV format prescribes, and parsing gives back the same elements, values and order, and the same bytes again (padding, which carries no information, is dropped by the parser). "
  "Walking a manifest's pointers yields them in order, each with its group's constructor id and with consecutive segment numbers from the group's start number.",
  ["inputs"],
  "every combination of optional elements and values",
  "Tests build a few fixed manifests; most optional-element combinations and length boundaries are not covered.",
  ["ccnpy/flic/tlvs/Manifest.py", "ccnpy/flic/tlvs/Node.py", "ccnpy/flic/tlvs/NodeData.py", "ccnpy/flic/tlvs/HashGroup.py", "ccnpy/flic/tlvs/GroupData.py", "ccnpy/flic/tlvs/Pointers.py", "ccnpy/flic/tlvs/NcSchema.py", "ccnpy/flic/tlvs/NcDef.py", "ccnpy/flic/tlvs/Locators.py", "ccnpy/flic/aeadctx/AeadData.py", "ccnpy/core/Pad.py"],
  "manifest element values and wire bytes",
  "FLIC TLV encoders and parsers",
  "serialize/parse and the element getters")

P("P11", "Malformed packets are rejected, never misread",
  "A byte string that is cut short anywhere, whose TLV lengths overrun or under-fill their container, or which repeats or misses a required top-level element, makes parsing raise an error instead of returning a packet; the same holds for the manifest inside a packet. "
  "If a well-formed byte string is parsed, the values returned are those the format assigns to it; unknown elements are skipped, without changing the other values, inside hash groups, group data, name-constructor schemas and security contexts, and rejected elsewhere.",
  ["inputs"],
  "every byte string; explored as every truncation, length change, duplication, deletion and unknown-element insertion of valid packets",
  "Tests feed a few malformed buffers; parser faults hide in specific truncation points and nesting levels.",
  ["ccnpy/core/Tlv.py", "ccnpy/core/TlvType.py", "ccnpy/core/Packet.py", "ccnpy/core/ContentObject.py", "ccnpy/flic/tlvs/Manifest.py", "ccnpy/flic/tlvs/Node.py"],
  "parser position and limits",
  "nested TLV parsers with length checks",
  "deserialize returning or raising")

P("P12", "An object's hash is the SHA-256 of its message, and identifies it",
  "The content-object hash of a packet equals SHA-256 over its wire format from the message body to the end, validation data included and packet header excluded. "
  "It is the same for the built, the re-parsed and the re-loaded packet, and packets that differ in any field of the body or validation data have different hashes.",
  ["inputs"],
  "every packet, signed or not",
  "Tests compare the hash of one or two fixed packets.",
  ["ccnpy/core/Packet.py", "ccnpy/core/HashValue.py"],
  "packet wire format and hash",
  "hash over body, validation algorithm and validation payload",
  "content_object_hash of built and parsed packets")

P("P13", "Signature and checksum validation accepts exactly authentic packets",
  "A packet signed with an RSA key is accepted by validation with a keystore that holds the matching key (public half suffices), and a packet with a checksum is accepted by anyone; the signature is RSASSA-PKCS1-v1_5 with SHA-256 over the message body followed by the validation algorithm, which names the SHA-256 of the DER public key. A packet without validation data is accepted as is. "
  "If any field of the body, of the validation algorithm (key id, signature time) or of the validation payload differs from what was signed, or the key differs, validation raises an error; a packet signed by a key that is not in the keystore raises an error instead of being accepted.",
  ["inputs", "histories"],
  "every packet, key, and modification of a signed packet",
  "Tests verify a fixed signature and a fixed checksum; they do not enumerate what a modification may touch.",
  ["ccnpy/core/PacketValidator.py", "ccnpy/crypto/RsaSha256.py", "ccnpy/crypto/Crc32c.py", "ccnpy/core/ValidationAlg.py", "ccnpy/crypto/RsaKey.py"],
  "signed packets and keystore content",
  "signature over body and validation algorithm",
  "validate_packet returning or raising")

P("P14", "AES manifest encryption is lossless, authenticated and never reuses a nonce",
  "Encrypting a manifest node with a pre-shared AES key (128 or 256 bit, GCM or CCM, with or without salt) and decrypting it with the same key, number and salt gives back the same node; the security context names the key number and the mode actually used and the bytes are standard AES-GCM/CCM over the node with the security context as associated data. "
  "Decryption raises an error if the security context (key number, nonce, mode or key-derivation data), the ciphertext or the tag was changed in any way, or if key, mode or salt differ. "
  "Two encryptions never use the same nonce.",
  ["inputs", "histories"],
  "every node, key, mode, salt and modification; every sequence of encryptions",
  "Tests encrypt one node per mode; nonce uniqueness and the rejection matrix are properties of all histories.",
  ["ccnpy/flic/aeadctx/AeadImpl.py", "ccnpy/flic/aeadctx/AeadData.py", "ccnpy/crypto/AeadKey.py", "ccnpy/flic/tlvs/AeadMode.py"],
  "key parameters, nonce generator",
  "AEAD with the security context as associated data",
  "encrypt/decrypt results, wire bytes of encrypted manifests")

P("P15", "RSA-OAEP key wrapping lets exactly the holder of the private key decrypt",
  "A tree or manifest encrypted under an RSA-OAEP wrapped key decrypts to the original nodes with a keystore that holds only the wrapping private key, provided the manifest that carries the wrapped key is processed first; only the root of a tree carries it, and afterwards, or if the AES key is already in the keystore, manifests without it decrypt too. "
  "Without the private key and without the AES key, with another private key, or if the wrapped key, the key number, the mode, the key-derivation data, the node or the tag was changed, decryption raises an error.",
  ["inputs", "histories"],
  "every key, salt, key-derivation option, modification, and order of manifests",
  "Tests cover one wrap/unwrap and one tree; order dependence and the binding of each field need enumeration.",
  ["ccnpy/flic/RsaOaepCtx/RsaOaepImpl.py", "ccnpy/flic/RsaOaepCtx/RsaOaepWrapper.py", "ccnpy/flic/RsaOaepCtx/WrappedKey.py", "ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py", "ccnpy/flic/RsaOaepCtx/RsaOaepEncryptor.py"],
  "keystore content; cache of unwrapped keys",
  "OAEP label binding, key cache, wrapper included in root only",
  "decrypt_manifest results over a sequence of manifests")

P("P16", "Key lookups and decryptor selection follow the keystore's history",
  "After any sequence of adding keys, a keystore lookup by key number, RSA key name or RSA key id returns the key added last under that number, name or id, and raises the matching not-found error if there is none; asking for a public key id works whether the stored key is private or public. "
  "When manifests under different keys and encryption methods are processed in any order, each one is decrypted with the key its own context names, and a failed lookup or decryption of one manifest never changes the result for another one.",
  ["histories"],
  "every sequence of key additions, lookups, and decryptions",
  "Tests add one or two keys and look them up once; caches go wrong only after particular histories.",
  ["ccnpy/crypto/InsecureKeystore.py", T+"DecryptorCache.py", "ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py"],
  "keystore maps; last-used decryptor; per-key decryptor map",
  "dictionary keystore and single-entry decryptor cache",
  "keystore getters, results of decrypting a sequence of manifests")

P("P17", "The tree plan fits the data and is the best of its kind",
  "For every number of data objects and every number of pointers that fit in a manifest, the planned split into direct data pointers and child pointers uses all pointers of an inner manifest, the planned number of inner manifests is the smallest with room for all data objects (none if one manifest holds them), and the planned height is the smallest whose capacity holds them. "
  "No other split with at least one direct pointer gives a lower tree or one with fewer inner manifests, nor, among those with as few inner manifests, leaves fewer unused pointers. "
  "The splits the optimizer lists as having the fewest inner manifests, or the least waste, are exactly those. "
  "The reported waste and node counts are those of a tree with that split and that many inner manifests, and the tree that is built has the planned height, degree and split.",
  ["inputs", "configurations"],
  "every pair of data-object count and pointer capacity",
  "Tests check a handful of pairs; a formula that is off for particular pairs yields trees that cannot be built or are needlessly tall.",
  [T+"TreeOptimizer.py", T+"OptimizerResult.py", T+"TreeParameters.py"],
  "optimizer result",
  "search over the splits with closed-form capacity",
  "optimizer results; height of published trees")

P("P18", "Name-constructor definitions apply to their own branch only",
  "While a manifest tree is walked, a definition in a manifest applies to that manifest's own pointers and to everything below it, overriding an outer definition with the same id, and applies neither to its siblings nor to its ancestors. "
  "A pointer whose constructor id is not defined on its branch makes the walk raise an error, and data are written in pre-order whatever mix of definitions is used.",
  ["programs", "inputs"],
  "every tree of manifests with definitions placed anywhere and overriding each other",
  "Published trees only have definitions in the root, so tests never exercise the scoping.",
  [T+"Traversal.py", N+"SchemaImplFactory.py"],
  "name constructor cache per branch",
  "cache copied when a manifest has definitions",
  "fetches made by the traversal and its output")

P("P19", "Packet stores return exactly what was stored, by hash and by name",
  "After any sequence of puts, a memory or directory store returns for a hash the packet put with that hash, or raises if there is none (a put also repairs a file that was damaged or cut short before); a fetch with a name that is not the packet's name is refused, while nameless packets are found by hash alone. "
  "With linking enabled, a fetch by name from a directory returns the last named packet put under exactly that name, different names never interfere, a link that was replaced by one to a packet of another name is refused, every packet stored is in the file named by its hash in hex (below two directories of its first hex digits if nested) and every link object carries the given signature, else a CRC-32C; and the byte and object counters equal the totals of all puts and of the distinct objects put.",
  ["histories"],
  "every sequence of puts and gets over packets with equal, different, similar and missing names",
  "Tests put each packet once and use well-behaved names.",
  [T+"TreeIO.py", T+"SizedPointer.py"],
  "packets by hash, link files by name, counters",
  "content-addressed files plus signed link objects",
  "put/get of the memory and directory stores")

P("P20", "Wire objects behave as values",
  "Names, TLVs, hash values, links, pointers, payloads, packets, manifests and the fields and parts they are made of are equal exactly when their wire formats are equal (and equal ones hash equally where hashing is supported); none is ever equal to an object of another kind, and all can always be compared with anything, also with a missing field. "
  "Appending to a name yields a new name and leaves the original unchanged; reading, iterating (also nested or interrupted), serializing, comparing, or printing an object never changes its wire format, and repeated serialization gives the same bytes. Every iteration over a TLV, hash value, link, time, list of pointers or of locators gives its bytes or values in order, whatever other iterations over the same object are under way.",
  ["histories", "inputs"],
  "every pair of objects and every sequence of read operations on them",
  "Stateful iterators and shared buffers only show after particular sequences of operations.",
  ["ccnpy/core/Name.py", "ccnpy/core/Tlv.py", "ccnpy/core/HashValue.py", "ccnpy/core/Link.py", "ccnpy/flic/tlvs/Pointers.py", "ccnpy/core/Packet.py"],
  "object's cached wire format and iteration state",
  "immutable objects with cached serialization",
  "equality, iteration and serialization results")

P("P21", "Names are built and taken apart faithfully",
  "A name made from a CCNx URI (with non-empty, unescaped segments) has exactly the URI's segments in order, as UTF-8 name components, and a URI without the scheme is refused; appending a chunk number or manifest number adds one component of that type holding the number in big-endian form, as few bytes as needed up to four and eight for larger numbers. "
  "The count, the i-th component, its type and value, and equality with a name built another way from the same components all agree, also after a wire round trip.",
  ["inputs", "programs"],
  "every sequence of construction and append operations and every component value",
  "Tests use a few literal URIs and small numbers.",
  ["ccnpy/core/Name.py"],
  "name components",
  "component list with cached TLV",
  "name getters and wire format")

P("P22", "Hash groups record exactly the pointers and sizes given to the builder",
  "After any sequence of appending and prepending direct and indirect pointers, the hash group has those pointers in the resulting order, the direct and indirect counts and sizes equal the sums of what was added, and the group's annotations are those requested and no others. "
  "A builder created with limits reports full exactly when a limit is reached and refuses to go beyond it without changing what it holds.",
  ["histories"],
  "every sequence of builder operations and limits",
  "Tests run one or two fixed sequences.",
  ["ccnpy/flic/HashGroupBuilder.py", "ccnpy/flic/tlvs/HashGroup.py", "ccnpy/flic/tlvs/GroupData.py"],
  "pointer list, counts and sizes",
  "builder accumulating pointers",
  "builder getters and the built hash group")

P("P23", "The command-line tools publish and retrieve faithfully",
  "For every documented combination of writer options (schema, prefixes, locators, degree, packet size, expiry times, AES key with mode, salt, number and key-derivation options, RSA-OAEP wrapping key, signing key with password, links), the writer tool publishes the file to the directory and the reader tool, given the name (or name and hash) and the matching keys, recreates the file exactly, also over an older one; without an output file, the reader's standard output holds the file's bytes in order, each payload whole, among its messages. "
  "The options take the effect they name on the published packets, and the reader fails, rather than writing wrong data, when a needed key is missing or wrong or the root is signed by someone else. Arguments that contradict each other or that are none of the documented kind are refused before anything is published.",
  ["configurations", "inputs"],
  "every combination of command-line options and file",
  "Tests call the writer class with a few argument sets and never run writer and reader together.",
  ["ccnpy/apps/manifest_writer.py", "ccnpy/apps/manifest_reader.py", "ccnpy/apps/cli_utils.py", "ccnpy/apps/packet_utils.py"],
  "published directory, reader output",
  "argument parsing, key loading, tree building and traversal",
  "files written by the two tools")

P("P24", "Traversal visits every object once and reports the count",
  "A traversal fetches each pointer of each manifest exactly once, in pre-order, asking for the constructed name and the pointer's hash, writes each data payload as one write in that order, and reports as its count the number of objects visited including the root. "
  "Resetting the count and traversing again, or asking for a graph, changes neither the fetches nor the output, and the graph – filled in by the traversal or while publishing – has one node per manifest and data object, told apart by colour, with edges that are exactly the pointers. A traversal that starts at any object below the root, given the publisher's name constructors, visits exactly that object's subtree.",
  ["inputs", "histories"],
  "every tree and every sequence of traversals",
  "Tests check the count of one tree.",
  [T+"Traversal.py", T+"ManifestGraph.py"],
  "traversal stack, count, graph",
  "recursive pre-order walk",
  "fetches on the packet reader, writes on the data writer, count and graph")

P("P25", "The CRC32C checksum is the standard one and detects corruption",
  "The checksum a packet gets is CRC-32C (Castagnoli polynomial, reflected, initial value and final complement of all ones) over the message body followed by the validation algorithm, in big-endian order, for every input length and content, however the input is divided between the two. "
  "A verifier accepts exactly that value; any single-bit or short burst error in the covered bytes or the checksum is rejected.",
  ["inputs"],
  "every byte string and every split of it",
  "Tests compare a few published vectors.",
  ["ccnpy/crypto/Crc32c.py"],
  "running remainder",
  "table-driven CRC",
  "sign/verify results")

P("P26", "Times on the wire are exact to the millisecond",
  "An expiry or signature time built from a date and time, or from seconds since 1970, is encoded as the nearest whole millisecond since 1970 in UTC, whatever the time's zone, as an 8-byte number. "
  "Parsing gives back the same millisecond value, the same date and time to the millisecond, and an object equal to the original.",
  ["inputs"],
  "every time from 1970 to 9999, every sub-second value and zone offset",
  "Floating-point rounding fails only for particular values.",
  ["ccnpy/core/Timestamp.py", "ccnpy/core/ExpiryTime.py", "ccnpy/core/SignatureTime.py"],
  "timestamp",
  "float seconds rounded to milliseconds",
  "wire format, milliseconds and datetime getters")

P("P27", "Publishing over the network sends the same packets in order",
  "When the packets of a publication are written to a network connection, the receiver gets exactly the wire format of the packets, in the order they were put, each once, whatever their sizes and however the connection splits the stream. "
  "The received stream can be divided by the packet headers alone into packets that are equal to those put, and the file can be retrieved from them.",
  ["inputs", "schedules"],
  "every sequence of packets and every way the transport fragments and delays them",
  "There is no test of the network writer.",
  [T+"TreeIO.py", "ccnpy/core/Packet.py", "ccnpy/core/FixedHeader.py"],
  "bytes sent on the connection",
  "stream of self-delimiting packets",
  "bytes received at the other end")

P("P28", "Every packet can be shown, and packet_reader tells the truth about it",
  "The text (str, repr, packet_reader's compact and pretty form) of any packet, manifest or name that was built or parsed can be made, whatever its names, payloads and fields hold, shows the text of its names and the hashes of its pointers, and making it changes nothing. "
  "packet_reader shows every well-formed packet, says that validation succeeded exactly for packets whose validator is genuine under a key it was given, ends with an error for files that are no packets and for packets found invalid, and ends well otherwise. "
  "The content of an encrypted manifest is shown exactly when the reader was given the right key (directly or through the wrapping key) and the packet was not found invalid; without that key the packet itself is still shown.",
  ["inputs"],
  "any packet bytes, any signer, any keys and options of the reader",
  "Tests show a handful of fixed packets and never run packet_reader; binary names, foreign payload types, damaged packets and missing keys are not sampled.",
  ["ccnpy/apps/packet_reader.py", "ccnpy/apps/packet_utils.py", "ccnpy/core/Packet.py", "ccnpy/core/ContentObject.py", "ccnpy/core/Name.py"],
  "text, output and outcome of packet_reader",
  "packet x validity x manifest x key",
  "stdout, exceptions, wire format before and after")

P("P29", "Key objects keep their secrets, and give exactly what was put in",
  "An RSA key made from the text of a private or public key, from a file, or newly generated is the same key wherever it is saved and loaded: the same public key text, and a key id that is the SHA-256 of its DER encoding. "
  "A key file saved with a password opens with that password only; a key without its private half can neither sign, nor decrypt, nor be saved as a private key. "
  "A signature (PKCS #1 v1.5, or PSS with the longest salt on request, with SHA-256) is the standard one over the concatenation of the buffers, and is verified as true exactly by the same key, the same padding and the same bytes however they are divided; anything else is answered false, never with an exception. "
  "What was encrypted with RSA-OAEP is given back exactly to the private key with the same label; a text too long for the key is refused. "
  "An AES key encrypts as standard GCM or CCM for every nonce the mode allows, text and associated data; decryption gives back the text, and refuses with a DecryptionError whenever the key, mode, nonce, associated data, ciphertext or tag differ in any way. "
  "Generated AES keys have the length asked for (128 or 256 bits, others are refused) and are fresh; key derivation with HKDF (SHA-256, SHA-384 or SHA-512) is the standard one.",
  ["inputs", "histories"],
  "every key, password, message, label, nonce, associated data, and sequence of making, saving, loading and using keys",
  "Tests sign, encrypt and save one message each, and sample no wrong password, label, padding, nonce length or buffer division.",
  ["ccnpy/crypto/RsaKey.py", "ccnpy/crypto/AeadKey.py", "ccnpy/crypto/KDF.py", "ccnpy/crypto/DecryptionError.py"],
  "key pair halves of each object, key files, signatures, ciphertexts",
  "RSA and AES through the cryptography package",
  "results and refusals of the key objects' methods, key files")

P("P30", "A walk uses only what it has validated",
  "During a walk every object fetched, the root included, is validated before anything of it is used: as soon as an object is signed with a key that the keystore does not hold, its signature or checksum does not hold, it is an encrypted manifest that the key held for its number does not open, or it is neither data nor manifest, the walk ends with an error. "
  "By then exactly the data objects that precede it in pre-order have been written, and nothing below or after it was fetched. "
  "Genuine objects of several signers, checksummed objects and unsigned ones may be mixed in one tree, and a tree of these is read completely. "
  "A manifest that carries its key wrapped for a private key in the keystore teaches the keystore that key, so that the manifests sealed with it open in this walk and later ones; a manifest whose key is wrapped for another, or that only names the key, opens if the keystore knows the key by then. "
  "Once the keystore has learned the missing keys, the next walk goes through, by the same traversal object or another. "
  "A walk without a keystore does not check signatures, but it does check checksums.",
  ["inputs", "histories"],
  "every tree, every assignment of validators, faults and encryption to its objects, every keystore and every later addition to it",
  "Tests traverse trees whose objects are all genuine and never give the keystore a key between walks.",
  [T+"Traversal.py", "ccnpy/core/PacketValidator.py", T+"DecryptorCache.py", "ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py", "ccnpy/crypto/InsecureKeystore.py"],
  "walk stack, keystore contents",
  "validate, decrypt, then visit",
  "fetches on the packet reader, writes on the data writer, the exception, count")

P("P31", "The manifest factory makes what it was asked for",
  "A manifest built by a ManifestFactory from pointers, hash groups or a node holds exactly those pointers in that order. "
  "Annotations are put in as far as the source leaves them open: node subtree size and name constructor definitions unless a whole node was given, group sizes, constructor id and start segment number only when pointers were given; a size (number or object) only if the tree options allow that kind of size; a group or node without any annotation has no data element. "
  "The packet has the given name and expiry time, or none, and a validator exactly when a signer was given, made by that signer whatever the tree options' signer is. "
  "With an encryptor in the options every manifest is sealed under its key with the node inside, and the wrapped key is included exactly on request. "
  "A manifest over the packet size is refused, and the factory's counters are the number and total bytes of the packets it did make. The source objects keep their bytes.",
  ["inputs", "histories"],
  "every source, every combination of given and allowed annotations, signer, encryptor, size limit and sequence of calls",
  "Tests build a few manifests with one set of options.",
  ["ccnpy/flic/ManifestFactory.py", "ccnpy/flic/ManifestTreeOptions.py", "ccnpy/flic/tlvs/GroupData.py", "ccnpy/flic/tlvs/NodeData.py"],
  "counters of the factory",
  "ManifestFactory.build_packet",
  "packet bytes, exception, counters, source bytes")

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for o in OUT:
        f.write(json.dumps(o) + '\n')
print(len(OUT))
