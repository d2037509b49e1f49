From d5166ca3af5f5996ef4aa4c9d68e72793c3527af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:44 +0000
Subject: [PATCH 01/39] fix: compute the tree height from the node capacities

The closed form counted a chain one level too high, and rounded logarithms of
node counts that do not describe a (d, m) tree, so the top manifest of a
Segmented tree was often not manifest 0, which is what the root points to.
---
 ccnpy/flic/tree/OptimizerResult.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/ccnpy/flic/tree/OptimizerResult.py b/ccnpy/flic/tree/OptimizerResult.py
index b9991de..56e04b1 100755
--- a/ccnpy/flic/tree/OptimizerResult.py
+++ b/ccnpy/flic/tree/OptimizerResult.py
@@ -58,25 +58,24 @@ class OptimizerResult:
 
     def _calculate_tree_height(self):
         """
-        The number of nodes in a k-ary tree is:
-            n = (k^(h+1)-1)/(k-1)
+        A leaf manifest holds `num_pointers` direct pointers.  An interior manifest at height h holds `direct_per_node`
+        direct pointers and `indirect_per_node` subtrees of height h-1.  So, the capacity of a tree of height h is
+            C(0) = num_pointers
+            C(h) = direct_per_node + indirect_per_node * C(h-1)
 
-        So the height of a k-ary tree with n nodes is:
-            h = log_k((k-1) * n + 1) - 1
+        The tree height is the smallest h that has room for all the data objects.
         """
-        if self._indirect_per_node == 1:
-            # a chain
-            return self.total_nodes()
-
         if self._indirect_per_node == 0:
             # a tree with data only at the leaves
             # we need _num_data_objects leaf pointers, so that happens at
             return int(math.ceil(math.log(self._num_data_objects, self._direct_per_node)))
 
-        k = self._indirect_per_node
-        n = self.total_nodes()
-        arg = (k-1) * n + 1
-        return int(math.ceil(math.log(arg, self._indirect_per_node) - 1))
+        height = 0
+        capacity = self._num_pointers
+        while capacity < self._num_data_objects:
+            height += 1
+            capacity = self._direct_per_node + self._indirect_per_node * capacity
+        return height
 
     def _calculate_num_leaf_nodes(self):
         num_internal_direct = self._num_internal_nodes * self._direct_per_node
-- 
2.43.0


From ac2f4ef636f03ec3e11888b57c9d87af5200a284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:58 +0000
Subject: [PATCH 02/39] fix: compare names, TLVs, links and pointers by their
 wire format

Tlv equality ignored the TLV type, so ChunkId=1 equalled ManifestId=1 and a
SHA-512 digest equalled a SHA-256 one of the same bytes.  Name equality compared
bytes with arrays, so a parsed Segmented name never equalled the name the
traversal asked for.  Link and Pointers equality depended on the position of an
unrelated iteration.
---
 ccnpy/core/Link.py          | 4 +++-
 ccnpy/core/Name.py          | 4 +++-
 ccnpy/core/Tlv.py           | 9 +++------
 ccnpy/flic/tlvs/Pointers.py | 4 +++-
 4 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/ccnpy/core/Link.py b/ccnpy/core/Link.py
index 7a34c96..223fd65 100755
--- a/ccnpy/core/Link.py
+++ b/ccnpy/core/Link.py
@@ -69,7 +69,9 @@ class Link:
             self._wire_format.extend(Tlv(self.__T_OBJHASHRESTR, self._digest).serialize())
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        if not isinstance(other, Link):
+            return False
+        return self._wire_format == other._wire_format
 
     def __repr__(self):
         return "Link(%r, %r, %r)" % (self._name, self._keyid, self._digest)
diff --git a/ccnpy/core/Name.py b/ccnpy/core/Name.py
index ee1fb81..5392289 100755
--- a/ccnpy/core/Name.py
+++ b/ccnpy/core/Name.py
@@ -95,7 +95,9 @@ class Name(TlvType):
         return len(self._tlv)
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        if not isinstance(other, Name):
+            return False
+        return self.serialize() == other.serialize()
 
     def __str__(self):
         return "NAME: %r" % [f'{c.type()} = {c.value()}' for c in self._components]
diff --git a/ccnpy/core/Tlv.py b/ccnpy/core/Tlv.py
index 918c9ee..fff8b2d 100755
--- a/ccnpy/core/Tlv.py
+++ b/ccnpy/core/Tlv.py
@@ -94,12 +94,9 @@ class Tlv(Serializable):
         return output
 
     def __eq__(self, other):
-        result = False
-        if len(self) == len(other):
-            if self.value() == other.value():
-                result = True
-
-        return result
+        if not isinstance(other, Tlv):
+            return False
+        return self._wire_format == other._wire_format
 
     def __hash__(self):
         return hash(self._wire_format.tobytes())
diff --git a/ccnpy/flic/tlvs/Pointers.py b/ccnpy/flic/tlvs/Pointers.py
index 5648b84..08ee3be 100755
--- a/ccnpy/flic/tlvs/Pointers.py
+++ b/ccnpy/flic/tlvs/Pointers.py
@@ -51,7 +51,9 @@ class Pointers(TlvType):
         return len(self._hash_values)
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        if not isinstance(other, Pointers):
+            return False
+        return self._tlv == other._tlv
 
     def __repr__(self):
         return "Ptrs: %r" % self._hash_values
-- 
2.43.0


From c11fed295ab2ef1ea74484ba56c68f197ef612c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:04 +0000
Subject: [PATCH 03/39] fix: round, not truncate, a timestamp to milliseconds

A millisecond time divided by 1000 and multiplied back can land just below the
integer; truncating it lost 1 msec, so a loaded packet serialized to different
bytes, hashed to a different name and failed validation.
---
 ccnpy/core/Timestamp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/core/Timestamp.py b/ccnpy/core/Timestamp.py
index d6c2f12..1878b6b 100755
--- a/ccnpy/core/Timestamp.py
+++ b/ccnpy/core/Timestamp.py
@@ -75,7 +75,7 @@ class Timestamp(TlvType, ABC):
         Python timestamp in milliseconds as integer
         :return:
         """
-        msec = int(self.timestamp() * 1000)
+        msec = round(self.timestamp() * 1000)
         return msec
 
     def datetime(self):
-- 
2.43.0


From c41b09fbc69f73dd867953962d6cdd3b6be3be40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:25 +0000
Subject: [PATCH 04/39] fix: reading a packet by name through its link object

PacketDirectoryReader._get_by_link used an undefined variable, so every fetch by
name (what manifest_reader does without --hash) raised NameError.
---
 ccnpy/flic/tree/TreeIO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccnpy/flic/tree/TreeIO.py b/ccnpy/flic/tree/TreeIO.py
index 95b86dd..a2c3898 100755
--- a/ccnpy/flic/tree/TreeIO.py
+++ b/ccnpy/flic/tree/TreeIO.py
@@ -268,9 +268,9 @@ class TreeIO:
                 link = Link.deserialize(p.body().payload().value())
                 hash_path = self.to_path(link.digest())
                 packet = Packet.load(hash_path)
-                print(f"Dereferenced link {filename} to load packet {packet.content_object_hash()}")
+                print(f"Dereferenced link {link_path} to load packet {packet.content_object_hash()}")
                 return packet
-            raise FileNotFoundError(f'Could not find link {filename}')
+            raise FileNotFoundError(f'Could not find link {link_path}')
 
         def close(self):
             pass
-- 
2.43.0


From 9b016972e22af22b4fca699a9b0756fbca7aa46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:34 +0000
Subject: [PATCH 05/39] fix: check the hash of a packet loaded from a directory

PacketDirectoryReader trusted the file name, so a corrupted or exchanged file was
returned for a hash restriction it does not satisfy and ended up in the output.
---
 ccnpy/flic/tree/TreeIO.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/ccnpy/flic/tree/TreeIO.py b/ccnpy/flic/tree/TreeIO.py
index a2c3898..bc8b635 100755
--- a/ccnpy/flic/tree/TreeIO.py
+++ b/ccnpy/flic/tree/TreeIO.py
@@ -239,13 +239,21 @@ class TreeIO:
                 return self._get_by_name(name)
 
             # ccnx does not use forwarding hint
-            path = self.to_path(hash_restriction)
-            p = Packet.load(path)
+            p = self._load_by_hash(hash_restriction)
             if p.body().name() is not None:
                 if name != p.body().name():
                     raise ValueError(f'Found packet hash {hash_restriction}, but request name {name} does not match packet {p.body().name()}')
             return p
 
+        def _load_by_hash(self, hash_value: HashValue) -> Packet:
+            """
+            The file name only says what the packet should be, so make sure that is what the file contains.
+            """
+            packet = Packet.load(self.to_path(hash_value))
+            if packet.content_object_hash() != hash_value:
+                raise ValueError(f'Packet hash {packet.content_object_hash()} does not match hash restriction {hash_value}')
+            return packet
+
         def _get_by_name(self, name: Name) -> Packet:
             """
             Try fetching a link with that name, otherwise search the directory
@@ -266,8 +274,7 @@ class TreeIO:
             # TODO: we should validate p, but that needs a keystore
             if p.body().is_link():
                 link = Link.deserialize(p.body().payload().value())
-                hash_path = self.to_path(link.digest())
-                packet = Packet.load(hash_path)
+                packet = self._load_by_hash(link.digest())
                 print(f"Dereferenced link {link_path} to load packet {packet.content_object_hash()}")
                 return packet
             raise FileNotFoundError(f'Could not find link {link_path}')
-- 
2.43.0


From 443b914181257b37f6254dd9fcc963978a03ed49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:07 +0000
Subject: [PATCH 06/39] fix: give every name its own link file

get_link_name dropped everything after a '?', '#' or ';' and mapped both '/' and
'~' to '~', so two different names could share one link file and a fetch of the
first returned the packet of the second.
---
 ccnpy/flic/tree/TreeIO.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ccnpy/flic/tree/TreeIO.py b/ccnpy/flic/tree/TreeIO.py
index bc8b635..d41866c 100755
--- a/ccnpy/flic/tree/TreeIO.py
+++ b/ccnpy/flic/tree/TreeIO.py
@@ -18,7 +18,7 @@ from abc import ABC
 from array import array
 from pathlib import PurePath, Path
 from typing import Optional, Dict
-from urllib.parse import urlparse
+from urllib.parse import quote
 
 from .SizedPointer import SizedPointer
 from ..tlvs.Locators import Locators
@@ -39,9 +39,9 @@ class TreeIO:
 
     @staticmethod
     def get_link_name(name: Name) -> str:
-        url = urlparse(name.as_uri())
-        filename = url.path
-        safename=filename.replace('/','~')
+        # Escape the separator and the URI delimiters, so different names have different files
+        components = [quote(repr(name.component(i)), safe='=').replace('~', '%7E') for i in range(name.count())]
+        safename = ''.join(f'~{c}' for c in components)
         return f'{safename}.link'
         # name_bytes = name.serialize().tobytes()
         # return f'{name_bytes.hex()}.link'
-- 
2.43.0


From 325999fcf833b531297cfa337600eaa426380853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:26 +0000
Subject: [PATCH 07/39] fix: a fetch by name returns a packet of that name

A link file left over from, or altered to point at, another object made the
directory reader return that object for the requested name.
---
 ccnpy/flic/tree/TreeIO.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ccnpy/flic/tree/TreeIO.py b/ccnpy/flic/tree/TreeIO.py
index d41866c..c2cbf70 100755
--- a/ccnpy/flic/tree/TreeIO.py
+++ b/ccnpy/flic/tree/TreeIO.py
@@ -275,6 +275,8 @@ class TreeIO:
             if p.body().is_link():
                 link = Link.deserialize(p.body().payload().value())
                 packet = self._load_by_hash(link.digest())
+                if name != packet.body().name():
+                    raise ValueError(f'Link {link_path} for name {name} leads to a packet named {packet.body().name()}')
                 print(f"Dereferenced link {link_path} to load packet {packet.content_object_hash()}")
                 return packet
             raise FileNotFoundError(f'Could not find link {link_path}')
-- 
2.43.0


From c35ab938027ca3344e9cd1663b00a46d66fad160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:52 +0000
Subject: [PATCH 08/39] fix: fit the manifest name, expiry time and sizes in
 max_packet_size

The number of pointers per manifest was calculated from a nameless manifest with
no expiry time and 1-byte sizes, so Segmented and Prefix manifests, and any
manifest with an expiry time or subtree sizes, could exceed max_packet_size.
---
 ccnpy/flic/tree/ManifestSizeCalculator.py | 47 ++++++++++++++++-------
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/ccnpy/flic/tree/ManifestSizeCalculator.py b/ccnpy/flic/tree/ManifestSizeCalculator.py
index 9213860..d2dae9c 100644
--- a/ccnpy/flic/tree/ManifestSizeCalculator.py
+++ b/ccnpy/flic/tree/ManifestSizeCalculator.py
@@ -72,6 +72,10 @@ class ManifestSizeCalculator:
                 "A filled manifest packet is %r bytes with %r hashes, a hash is %r bytes, and exceeds max_size %r" %
                 (length, num_hashes, hash_value_len, self._max_packet_size))
 
+        # That manifest has no name, no expiry time and only 1-byte sizes, so make room for those that will be used
+        while num_hashes >= 2 and len(self._build_largest_packet(num_hashes, hv)) > self._max_packet_size:
+            num_hashes -= 1
+
         #print("calculate_max_pointers = %r in length %r, actual length %r" % (num_hashes, max_packet_size, length))
 
         if num_hashes < 2:
@@ -81,12 +85,35 @@ class ManifestSizeCalculator:
         return num_hashes
 
     def _build_manifest_packet(self, num_hashes, hv):
+        # include_leaf_size and include_subtree_size might reserve too much space if we do not use those.
+        hash_groups = self._build_hash_groups(num_hashes, hv, size=0, include_leaf_size=True, include_subtree_size=True)
+
+        packet = self._manifest_factory.build_packet(source=hash_groups,
+                                               node_subtree_size=self._total_bytes)
+
+        return packet
+
+    def _build_largest_packet(self, num_hashes, hv):
+        """
+        A manifest with all the fields the tree options ask for at their largest value.
+        """
+        tree_options = self._manifest_factory.tree_options()
+        hash_groups = self._build_hash_groups(num_hashes, hv, size=self._total_bytes,
+                                              include_leaf_size=tree_options.add_group_leaf_size,
+                                              include_subtree_size=tree_options.add_group_subtree_size)
+
+        return self._manifest_factory.build_packet(source=hash_groups,
+                                                   node_subtree_size=self._total_bytes,
+                                                   name=self._name_ctx.manifest_schema_impl.get_name(self.__MAX_MANIFEST_ID),
+                                                   expiry_time=tree_options.manifest_expiry_time)
+
+    def _build_hash_groups(self, num_hashes, hv, size, include_leaf_size, include_subtree_size):
         # Arbitrary choise, we put n-1 into direct and 1 into indirect
         hgb = HashGroupBuilderPair(name_ctx=self._name_ctx, max_direct = num_hashes -1, max_indirect=1)
 
-        for hv in (num_hashes -1) * [hv]:
-            hgb.prepend_direct(hv)
-        hgb.prepend_indirect(hv)
+        for i in range(num_hashes - 1):
+            hgb.prepend_direct(hv, size if i == 0 else 0)
+        hgb.prepend_indirect(hv, size)
         if self._name_ctx.manifest_schema_impl.uses_name_id():
             indirect_start_segment_id = StartSegmentId(self.__MAX_MANIFEST_ID)
         else:
@@ -97,16 +124,10 @@ class ManifestSizeCalculator:
         else:
             direct_start_segment_id = None
 
-        # include_leaf_size and include_subtree_size might reserve too much space if we do not use those.
-        hash_groups = hgb.hash_groups(include_leaf_size=True,
-                                      include_subtree_size=True,
-                                      indirect_start_segment_id=indirect_start_segment_id,
-                                      direct_start_segment_id=direct_start_segment_id)
-
-        packet = self._manifest_factory.build_packet(source=hash_groups,
-                                               node_subtree_size=self._total_bytes)
-
-        return packet
+        return hgb.hash_groups(include_leaf_size=include_leaf_size,
+                               include_subtree_size=include_subtree_size,
+                               indirect_start_segment_id=indirect_start_segment_id,
+                               direct_start_segment_id=direct_start_segment_id)
 
     def _build_single_hash_group(self, indirect_ptrs, direct_ptrs, nc_id):
         # We use total bytes for the subtree size and leaf size.  This might end up reserving one one more byte
-- 
2.43.0


From 632416ad9c34915686f9b73e4fdc1d77132aacd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:07 +0000
Subject: [PATCH 09/39] fix: parse a Pad TLV

---
 ccnpy/core/Pad.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ccnpy/core/Pad.py b/ccnpy/core/Pad.py
index 8f60b27..c1dbc38 100755
--- a/ccnpy/core/Pad.py
+++ b/ccnpy/core/Pad.py
@@ -40,8 +40,9 @@ class Pad(OctetTlvType):
 
     @classmethod
     def parse(cls, tlv):
-        result = super().parse(tlv)
-        for b in result.value_bytes():
+        if tlv.type() != cls.class_type():
+            raise CannotParseError("Incorrect TLV type %r" % tlv.type())
+        for b in tlv.value():
             if b != 0:
-                raise ValueError(f'The value of a PAD must all be 0s, got: {result.value()}')
-        return result
+                raise ValueError(f'The value of a PAD must all be 0s, got: {tlv.value()}')
+        return cls(tlv.length())
-- 
2.43.0


From 421c9666250e8a663e2a9345cddc702a6ca40b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:15 +0000
Subject: [PATCH 10/39] fix: reject a Vendor TLV that is too short for its PEN

---
 ccnpy/flic/tlvs/Vendor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/flic/tlvs/Vendor.py b/ccnpy/flic/tlvs/Vendor.py
index 49a312c..32c10cc 100644
--- a/ccnpy/flic/tlvs/Vendor.py
+++ b/ccnpy/flic/tlvs/Vendor.py
@@ -67,7 +67,7 @@ class Vendor(TlvType):
         if tlv.type() != cls.class_type():
             raise CannotParseError("Incorrect TLV type %r" % tlv.type())
 
-        if len(tlv) < 3:
+        if tlv.length() < 3:
             raise ValueError("A Vendor TLV must have a 3-byte PEN")
 
         pen = Tlv.array_to_number(tlv.value()[0:3])
-- 
2.43.0


From fe25679f20a06dce9408b8a89c246c8a6069dc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:22 +0000
Subject: [PATCH 11/39] fix: do not cache the decryptor of a missing key or of
 another context type

---
 ccnpy/flic/tree/DecryptorCache.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/ccnpy/flic/tree/DecryptorCache.py b/ccnpy/flic/tree/DecryptorCache.py
index bb120b9..a41fb58 100644
--- a/ccnpy/flic/tree/DecryptorCache.py
+++ b/ccnpy/flic/tree/DecryptorCache.py
@@ -36,19 +36,20 @@ class DecryptorCache:
         self._oaep_decryptor = RsaOaepDecryptor(keystore=self._keystore)
 
     def get_or_create(self, security_ctx: AeadSecurityCtx):
-        # TODO: This is not correct for RsaOaep, as it uses (keyid, keynum) pair as index
+        if isinstance(security_ctx, RsaOaepCtx):
+            # it has its own cache, as it uses the (keyid, keynum) pair as index
+            return self._oaep_decryptor
+
         key_num = security_ctx.key_number()
-        if key_num == self._last_key_num:
-            return self._last_decryptor
-        self._last_key_num = key_num
-        self._last_decryptor = self._create(security_ctx)
+        if key_num != self._last_key_num:
+            # _create() throws if there is no such key, so do not remember the key number before it is done
+            self._last_decryptor = self._create(security_ctx)
+            self._last_key_num = key_num
         return self._last_decryptor
 
     def _create(self, security_ctx: AeadSecurityCtx) -> ManifestDecryptor:
-        # TODO: implement for RsaOaep too
         if isinstance(security_ctx, AeadCtx):
             key_num = security_ctx.key_number()
             return AeadDecryptor(self._keystore.get_aes_key(key_num))
 
-        if isinstance(security_ctx, RsaOaepCtx):
-            return self._oaep_decryptor
+        raise ValueError(f'Unsupported security context: {security_ctx}')
-- 
2.43.0


From 7c6bcbf28451f0646b49580d6cbe6319ff31df8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:30 +0000
Subject: [PATCH 12/39] fix: decrypt a node with RSA-OAEP

---
 ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py b/ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py
index a3e34c7..3ba9161 100755
--- a/ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py
+++ b/ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py
@@ -55,5 +55,5 @@ class RsaOaepDecryptor(ManifestDecryptor):
         return impl.decrypt_manifest(manifest)
 
     def decrypt_node(self, security_ctx, encrypted_node, auth_tag):
-        impl = self._get_impl(security_ctx=security_ctx())
+        impl = self._get_impl(security_ctx=security_ctx)
         return impl.decrypt_node(security_ctx, encrypted_node, auth_tag)
-- 
2.43.0


From ac1d5fdef9f9dcc1ecedd0c4820dd9104b49b744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:38 +0000
Subject: [PATCH 13/39] fix: wrap a key that has KdfData without KdfInfo

---
 ccnpy/flic/RsaOaepCtx/WrappedKey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/flic/RsaOaepCtx/WrappedKey.py b/ccnpy/flic/RsaOaepCtx/WrappedKey.py
index c02b684..87379b3 100644
--- a/ccnpy/flic/RsaOaepCtx/WrappedKey.py
+++ b/ccnpy/flic/RsaOaepCtx/WrappedKey.py
@@ -38,7 +38,7 @@ class WrappedKey(OctetTlvType):
                       kdf_data: Optional[KdfData], key_id: KeyId, hash_alg: HashAlg):
 
         if kdf_data is not None:
-            kdf_bytes = kdf_data.kdf_info().serialize().tobytes()
+            kdf_bytes = kdf_data.serialize().tobytes()
         else:
             kdf_bytes = b''
 
-- 
2.43.0


From 4b6dcf67bf638c6b35c31660d7fc8fef68c9d60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:47 +0000
Subject: [PATCH 14/39] fix: get the next name of a segmented schema

---
 ccnpy/flic/name_constructor/SegmentedSchemaImpl.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ccnpy/flic/name_constructor/SegmentedSchemaImpl.py b/ccnpy/flic/name_constructor/SegmentedSchemaImpl.py
index 5d50812..6a901c8 100644
--- a/ccnpy/flic/name_constructor/SegmentedSchemaImpl.py
+++ b/ccnpy/flic/name_constructor/SegmentedSchemaImpl.py
@@ -46,11 +46,11 @@ class SegmentedSchemaImpl(SchemaImpl):
     def __repr__(self):
         return f'SegmentedImpl(name={self._name}, nc_id={self._nc_id}, schema={self._schema})'
 
-    def get_name(self, suffix_id) -> Optional[Name]:
+    def get_name(self, chunk_id) -> Optional[Name]:
         """
-        HashSchema always uses nameless objects
+        SegmentedSchema appends the chunk id to the name
         """
-        return self._name.append(self._suffix_type.create_name_component(suffix_id))
+        return self._name.append(self._suffix_type.create_name_component(chunk_id))
 
     def nc_id(self) -> NcId:
         return self._nc_id
-- 
2.43.0


From 7e55f5ffc0e298c4333dbf14eeff7942b46cd5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:38 +0000
Subject: [PATCH 15/39] fix: a key password given on the command line

---
 ccnpy/apps/cli_utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ccnpy/apps/cli_utils.py b/ccnpy/apps/cli_utils.py
index 9cafdcb..a1dcf0f 100644
--- a/ccnpy/apps/cli_utils.py
+++ b/ccnpy/apps/cli_utils.py
@@ -167,6 +167,12 @@ def fixup_key_password(args, ask_for_pass: bool = True):
             if len(args.wrap_pass) == 0:
                 args.wrap_pass = None
 
+    # RsaKey needs a password in bytes
+    if isinstance(args.key_pass, str):
+        args.key_pass = args.key_pass.encode()
+    if isinstance(args.wrap_pass, str):
+        args.wrap_pass = args.wrap_pass.encode()
+
 def create_keystore(args):
     keystore = InsecureKeystore()
     aead_params = aead_parameters_from_cli(args)
-- 
2.43.0


From 50d2942a17ca8b36a39c1a06a4e534b7ed399a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:47 +0000
Subject: [PATCH 16/39] fix: the hash restriction of the manifest reader

---
 ccnpy/apps/manifest_reader.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ccnpy/apps/manifest_reader.py b/ccnpy/apps/manifest_reader.py
index 75d9d8e..d6407a0 100755
--- a/ccnpy/apps/manifest_reader.py
+++ b/ccnpy/apps/manifest_reader.py
@@ -17,6 +17,7 @@ import logging
 import sys
 from abc import ABC, abstractmethod
 
+from ccnpy.core.HashValue import HashValue
 from ccnpy.core.Name import Name
 from ccnpy.crypto.InsecureKeystore import InsecureKeystore
 from ccnpy.flic.tree.Traversal import Traversal
@@ -70,7 +71,7 @@ class ManifestDirectoryReader(ManifestReader):
         """
         super().__init__()
         self._root_name = Name.from_uri(args.name)
-        self._root_hash = args.hash_restriction
+        self._root_hash = self._parse_hash(args.hash_restriction)
         self._dir = args.in_dir
         self._keystore = keystore
         self._reader = TreeIO.PacketDirectoryReader(self._dir)
@@ -88,6 +89,15 @@ class ManifestDirectoryReader(ManifestReader):
             self._writer.close()
             self._writer = None
 
+    @staticmethod
+    def _parse_hash(value):
+        """
+        :param value: A sha256 in hex, as in the filenames of the packet directory, with or without a leading '0x'
+        """
+        if value is None or isinstance(value, HashValue):
+            return value
+        return HashValue.create_sha256(bytes.fromhex(value.removeprefix('0x')))
+
     @staticmethod
     def _create_writer(args):
         if args.output_file_name is None:
@@ -120,7 +130,7 @@ def run():
     parser = argparse.ArgumentParser()
 
     parser.add_argument('--name', dest="name", default=None, help='CCNx URI for root manifest', required=True)
-    parser.add_argument('--hash', dest="hash_restriction", default=None, help='CCNx URI for root manifest', required=False)
+    parser.add_argument('--hash', dest="hash_restriction", default=None, help='SHA256 hash (hex string) of the root manifest', required=False)
 
     parser.add_argument('-i', dest="in_dir", default='.', help="input directory (default=%r)" % '.')
     parser.add_argument('-T', dest="use_tcp", default=False, action=argparse.BooleanOptionalAction,
-- 
2.43.0


From c1b754192101eab2dc98eb925e2802eaccce78f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:55 +0000
Subject: [PATCH 17/39] fix: default key number of the manifest writer

---
 ccnpy/apps/manifest_writer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ccnpy/apps/manifest_writer.py b/ccnpy/apps/manifest_writer.py
index b1df5ec..ee834dd 100755
--- a/ccnpy/apps/manifest_writer.py
+++ b/ccnpy/apps/manifest_writer.py
@@ -14,6 +14,7 @@
 
 
 import argparse
+import hashlib
 import logging
 from datetime import datetime
 
@@ -23,6 +24,7 @@ from ccnpy.core.Packet import PacketWriter, Packet
 from ccnpy.flic.ManifestTree import ManifestTree
 from ccnpy.flic.ManifestTreeOptions import ManifestTreeOptions
 from ccnpy.flic.name_constructor.SchemaType import SchemaType
+from ccnpy.flic.tlvs.KeyNumber import KeyNumber
 from ccnpy.flic.tlvs.Locators import Locators
 from ccnpy.flic.tree.TreeIO import TreeIO
 from .cli_utils import add_encryption_cli_args, rsa_signer_from_cli_args, fixup_key_password, encryptor_from_cli_args
@@ -150,8 +152,8 @@ def run():
     fixup_key_password(args)
 
     if args.enc_key is not None and args.key_num is None:
-        # TODO: use something like the left 8 bytes of a sha256
-        args.key_num = hash(args.enc_key)
+        # hash() is different in every process, and may be negative
+        args.key_num = KeyNumber(hashlib.sha256(args.enc_key).digest()[:8])
 
     if args.use_tcp:
         packet_writer = TreeIO.PacketNetworkWriter("127.0.0.1", 9896)
-- 
2.43.0


From 7b57fb444a14eedc4f94384a859dce08ca9b779e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:03 +0000
Subject: [PATCH 18/39] fix: the manifest writer takes the prefixes of the
 Prefix schema

---
 ccnpy/apps/manifest_writer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ccnpy/apps/manifest_writer.py b/ccnpy/apps/manifest_writer.py
index ee834dd..6279a08 100755
--- a/ccnpy/apps/manifest_writer.py
+++ b/ccnpy/apps/manifest_writer.py
@@ -121,8 +121,8 @@ def run():
     parser.add_argument('--manifest-locator', dest="manifest_locator", default=None,
                         help='CCNx URI for manifest locator')
     parser.add_argument('--data-locator', dest="data_locator", default=None, help='CCNx URI for data locator')
-    parser.add_argument('--manifest-prefix', dest="manifest_prefix", help='CCNx URI for manifests (Segmented only)')
-    parser.add_argument('--data-prefix', dest="data_prefix", help='CCNx URI for data (Segmented only)')
+    parser.add_argument('--manifest-prefix', dest="manifest_prefix", help='CCNx URI for manifests (Prefix and Segmented only)')
+    parser.add_argument('--data-prefix', dest="data_prefix", help='CCNx URI for data (Prefix and Segmented only)')
 
     parser.add_argument("-d", dest="tree_degree", type=int,
                         help='manifest tree degree (default is max that fits in a packet)')
@@ -165,8 +165,8 @@ def run():
     if args.schema == 'Segmented':
         if args.manifest_prefix is None or args.data_prefix is None:
             raise ValueError('For SegmentedSchema, must provide --manifest-prefix and --data-prefix.')
-    elif args.manifest_prefix is not None or args.data_prefix is not None:
-        raise ValueError('--manifest-name and --data-name only apply to SegmentedSchema.')
+    elif args.schema == 'Hashed' and (args.manifest_prefix is not None or args.data_prefix is not None):
+        raise ValueError('--manifest-prefix and --data-prefix do not apply to HashSchema.')
 
     try:
         writer = ManifestWriter(args=args, packet_writer=packet_writer)
-- 
2.43.0


From b6954fe26f113ca859c2f11b6a28407ac3e21efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:25 +0000
Subject: [PATCH 19/39] fix: reject a packet whose length is not the one in its
 header

---
 ccnpy/core/Packet.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ccnpy/core/Packet.py b/ccnpy/core/Packet.py
index 068c91f..79d1087 100755
--- a/ccnpy/core/Packet.py
+++ b/ccnpy/core/Packet.py
@@ -104,6 +104,8 @@ class Packet:
 
         offset = 0
         header = FixedHeader.deserialize(buffer)
+        if header.packet_length() != len(buffer):
+            raise ValueError("packet_length %r does not match the buffer length %r" % (header.packet_length(), len(buffer)))
         offset += header.header_length()
 
         while offset < len(buffer):
-- 
2.43.0


From e8d8737f5b10ca222dc03444a88199b3ef32b4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:09 +0000
Subject: [PATCH 20/39] fix: reject a manifest with two AuthTags

---
 ccnpy/flic/tlvs/Manifest.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ccnpy/flic/tlvs/Manifest.py b/ccnpy/flic/tlvs/Manifest.py
index 2302a41..3ac903b 100755
--- a/ccnpy/flic/tlvs/Manifest.py
+++ b/ccnpy/flic/tlvs/Manifest.py
@@ -100,6 +100,7 @@ class Manifest:
                 assert node is None
                 node = EncryptedNode.parse(tlv)
             elif tlv.type() == AuthTag.class_type():
+                assert auth_tag is None
                 auth_tag = AuthTag.parse(tlv)
             else:
                 raise ValueError("Unsupported TLV %r" % tlv)
-- 
2.43.0


From 3de1c57ea55774e4ef0a920634ba0adabac37c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:27 +0000
Subject: [PATCH 21/39] fix: build a name constructor schema that has
 ProtocolFlags

---
 ccnpy/flic/tlvs/NcSchema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/flic/tlvs/NcSchema.py b/ccnpy/flic/tlvs/NcSchema.py
index 0ef9bb4..a314096 100644
--- a/ccnpy/flic/tlvs/NcSchema.py
+++ b/ccnpy/flic/tlvs/NcSchema.py
@@ -55,7 +55,7 @@ class ProtocolFlagsSchema(NcSchema, ABC):
     def __init__(self, flags: Optional[ProtocolFlags] = None):
         self._flags = flags
         super().__init__()
-        self._tlv = Tlv(self.class_type(), self._flags)
+        self._tlv = Tlv(self.class_type(), [self._flags])
 
     def __len__(self):
         return len(self._tlv)
-- 
2.43.0


From 9d76838fdd3313e86157f1b5e2a93cf2cd4f4e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:43 +0000
Subject: [PATCH 22/39] fix: do not skip an Interest in front of a Content
 Object

---
 ccnpy/core/Interest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/core/Interest.py b/ccnpy/core/Interest.py
index 9ee865a..0b84616 100755
--- a/ccnpy/core/Interest.py
+++ b/ccnpy/core/Interest.py
@@ -45,7 +45,7 @@ class Interest(TlvType):
 
     @classmethod
     def parse(cls, tlv):
-        pass
+        raise RuntimeError("Not implemented")
 
     def serialize(self):
         pass
-- 
2.43.0


From 5eec1fbcad380440388d8095cd474499840d995d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:16 +0000
Subject: [PATCH 23/39] fix: the subtree size of a hash group when only group
 sizes are added

---
 ccnpy/flic/tree/TreeBuildReturnValue.py |  2 ++
 ccnpy/flic/tree/TreeBuilder.py          | 12 +++---------
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/ccnpy/flic/tree/TreeBuildReturnValue.py b/ccnpy/flic/tree/TreeBuildReturnValue.py
index 69ded05..686c9f9 100644
--- a/ccnpy/flic/tree/TreeBuildReturnValue.py
+++ b/ccnpy/flic/tree/TreeBuildReturnValue.py
@@ -29,4 +29,6 @@ class TreeBuilderReturnValue:
     node: Node
     manifest: Optional[Manifest] = None
     packet: Optional[Packet] = None
+    # The application bytes in the manifest's subtree
+    subtree_size: Optional[int] = None
 
diff --git a/ccnpy/flic/tree/TreeBuilder.py b/ccnpy/flic/tree/TreeBuilder.py
index 5d9f6a3..18d70e6 100755
--- a/ccnpy/flic/tree/TreeBuilder.py
+++ b/ccnpy/flic/tree/TreeBuilder.py
@@ -327,7 +327,7 @@ class TreeBuilder:
         packet = self._factory.build_packet(source=node,
                                             name=self._get_next_manifest_name(level),
                                             expiry_time=self._tree_options.manifest_expiry_time)
-        return_value = TreeBuilderReturnValue(packet=packet, node=node)
+        return_value = TreeBuilderReturnValue(packet=packet, node=node, subtree_size=direct_size + indirect_size)
         return return_value
 
     def _build_leaf_packet(self, head: int, tail: int, level: int):
@@ -411,7 +411,7 @@ class TreeBuilder:
     def _interior_add_right_most_child(self, builders: HashGroupBuilderPair, right_most_child: TreeBuilderReturnValue):
         if right_most_child is not None:
             builders.append_indirect(hash_value=right_most_child.packet.content_object_hash(),
-                                     subtree_size=self._get_optional_subtree_size(right_most_child.node.node_data()))
+                                     subtree_size=right_most_child.subtree_size)
 
     def _interior_add_indirect(self, builders: HashGroupBuilderPair, segment, level: int):
         # Reserve space at the head of the segment for this node's direct pointers before
@@ -422,7 +422,7 @@ class TreeBuilder:
         while not builders.is_indirect_full() and not segment.empty():
             child = self._bottom_up_preorder(segment, level - 1)
             builders.prepend_indirect(hash_value=child.packet.content_object_hash(),
-                                      subtree_size=self._get_optional_subtree_size(child.node.node_data()))
+                                      subtree_size=child.subtree_size)
 
         # Pull back our reservation and put those pointers in our direct children
         segment.decrement_head(reserve_count)
@@ -441,12 +441,6 @@ class TreeBuilder:
         # we did not execute the while loop
         return None
 
-    def _get_optional_subtree_size(self, node_data: NodeData):
-        if self._tree_options.add_node_subtree_size:
-            return node_data.subtree_size().size()
-        else:
-            return None
-
     def _add_manifest_to_graph(self, return_value: TreeBuilderReturnValue):
         if self._manifest_graph is not None:
             self._manifest_graph.add_manifest(return_value.packet.content_object_hash(),
-- 
2.43.0


From dafc93f4c1724232c8721c0072c513944c3be57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:18 +0000
Subject: [PATCH 24/39] fix: refuse a root manifest that is too big before
 writing the tree

---
 ccnpy/flic/ManifestTree.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/ccnpy/flic/ManifestTree.py b/ccnpy/flic/ManifestTree.py
index 6c7b3f1..85adb08 100755
--- a/ccnpy/flic/ManifestTree.py
+++ b/ccnpy/flic/ManifestTree.py
@@ -22,6 +22,7 @@ from .tlvs.StartSegmentId import StartSegmentId
 from .tree.ManifestGraph import ManifestGraph
 from .tree.TreeBuilder import TreeBuilder
 from .tree.TreeParameters import TreeParameters
+from ..core.HashValue import HashValue
 from ..core.Packet import Packet, PacketWriter
 
 
@@ -69,6 +70,7 @@ class ManifestTree:
         #if self._tree_options.debug:
         print(f"Optimized parameters: {self._optimized_params}")
 
+        self._check_root_manifest_size()
         top_manifest_packet = self.build_top()
         root_packet = self.build_root(top_manifest_packet=top_manifest_packet)
 
@@ -89,6 +91,20 @@ class ManifestTree:
         self._packet_output.put(root_packet)
         return root_packet
 
+    def _check_root_manifest_size(self):
+        """
+        The factory refuses to build a root manifest larger than `max_packet_size` (e.g. because of long locators).
+        Find that out before we write the rest of the tree.
+        """
+        ManifestFactory(tree_options=self._tree_options).build_packet(
+            source=Pointers([HashValue.create_sha256(32 * [0])]),
+            nc_defs=self._name_ctx.nc_def(),
+            node_subtree_size=self._file_metadata.total_bytes,
+            group_subtree_size=self._file_metadata.total_bytes,
+            nc_id=self._name_ctx.manifest_schema_impl.nc_id(),
+            start_segment_id=StartSegmentId(0) if self._name_ctx.manifest_schema_impl.uses_name_id() else None,
+            include_full_security_context=True)
+
     def _create_root_manifest(self, manifest_factory: ManifestFactory, total_file_bytes, top_manifest_packet: Packet):
         """
         The root manifest has a CCNx Name and public key signature.  It is a manifest with one pointer to the
-- 
2.43.0


From f3f8cefee86de71787f89a4c4cbbb67be53423ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:05 +0000
Subject: [PATCH 25/39] fix: the plan of a single data object has no internal
 nodes

---
 ccnpy/flic/tree/TreeOptimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ccnpy/flic/tree/TreeOptimizer.py b/ccnpy/flic/tree/TreeOptimizer.py
index d5750f5..f3ba38e 100755
--- a/ccnpy/flic/tree/TreeOptimizer.py
+++ b/ccnpy/flic/tree/TreeOptimizer.py
@@ -87,7 +87,8 @@ class TreeOptimizer:
                 return 1
 
         k = math.ceil((self._num_direct_nodes - d - m) / (m * (d + m - 1)))
-        return k
+        # a single data object in a manifest with room for many makes the fraction -1
+        return max(0, k)
 
     @staticmethod
     def calculate_n(k, d, m):
-- 
2.43.0


From dfcccbd2e840543c7877d46b75ce6c366f987162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:38 +0000
Subject: [PATCH 26/39] fix: a hash group does not change when its builder goes
 on

---
 ccnpy/flic/HashGroupBuilder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ccnpy/flic/HashGroupBuilder.py b/ccnpy/flic/HashGroupBuilder.py
index 64a5ea9..4ccd8ae 100755
--- a/ccnpy/flic/HashGroupBuilder.py
+++ b/ccnpy/flic/HashGroupBuilder.py
@@ -106,7 +106,8 @@ class HashGroupBuilder:
 
         :return: ccnpy.flic.Pointers object
         """
-        return Pointers(hash_values=self._pointers)
+        # a copy, so a later append or prepend does not change what we return now
+        return Pointers(hash_values=list(self._pointers))
 
     def direct_count(self):
         return self._direct_count
-- 
2.43.0


From 449f8ee8e574193163bdc46517ffa0c7450255a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:09 +0000
Subject: [PATCH 27/39] fix: a link file for names with unusual components

---
 ccnpy/flic/tree/TreeIO.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/ccnpy/flic/tree/TreeIO.py b/ccnpy/flic/tree/TreeIO.py
index c2cbf70..eef900a 100755
--- a/ccnpy/flic/tree/TreeIO.py
+++ b/ccnpy/flic/tree/TreeIO.py
@@ -25,8 +25,9 @@ from ..tlvs.Locators import Locators
 from ...core.ContentObject import ContentObject
 from ...core.HashValue import HashValue
 from ...core.Link import Link
-from ...core.Name import Name
+from ...core.Name import Name, NameComponent
 from ...core.Packet import Packet, PacketWriter, PacketReader
+from ...core.Tlv import Tlv
 from ...crypto.Crc32c import Crc32cSigner
 from ...crypto.Signer import Signer
 
@@ -37,10 +38,30 @@ class TreeIO:
 
     """
 
+    @staticmethod
+    def _get_link_component(component: NameComponent) -> str:
+        """
+        The readable form, or the type and the bytes if the readable form does not tell which component it is
+        """
+        value = bytes(component.value())
+        readable = component.is_chunk_id_segment() or component.is_manifest_id_segment()
+        if readable:
+            number = Tlv.array_to_number(value)
+            readable = bytes(Tlv.number_to_array(number)) == value
+        elif component.is_name_segment():
+            try:
+                value.decode('UTF-8')
+                readable = True
+            except UnicodeDecodeError:
+                pass
+        if not readable:
+            return f'{component.type()}={value.hex()}'
+        return quote(repr(component), safe='=').replace('~', '%7E')
+
     @staticmethod
     def get_link_name(name: Name) -> str:
         # Escape the separator and the URI delimiters, so different names have different files
-        components = [quote(repr(name.component(i)), safe='=').replace('~', '%7E') for i in range(name.count())]
+        components = [TreeIO._get_link_component(name.component(i)) for i in range(name.count())]
         safename = ''.join(f'~{c}' for c in components)
         return f'{safename}.link'
         # name_bytes = name.serialize().tobytes()
-- 
2.43.0


From efb6d07f1cf9e7e87020fd0ee518bebc3a8d3069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:55 +0000
Subject: [PATCH 28/39] fix: refuse an authentication tag of another length

---
 ccnpy/crypto/AeadKey.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ccnpy/crypto/AeadKey.py b/ccnpy/crypto/AeadKey.py
index 274ec3d..df0b867 100755
--- a/ccnpy/crypto/AeadKey.py
+++ b/ccnpy/crypto/AeadKey.py
@@ -119,6 +119,10 @@ class AeadKey(ABC):
         if isinstance(associated_data, array.array):
             associated_data = associated_data.tobytes()
 
+        if len(auth_tag) != self._tag_len:
+            # otherwise, bytes could be moved between the ciphertext and the tag
+            raise DecryptionError(f'The authentication tag must have {self._tag_len} bytes, got {len(auth_tag)}')
+
         combined = ciphertext + auth_tag
 
         if self.DEBUG:
-- 
2.43.0


From 661a8d6f3b879536eb1d11f4e9d454acf6eafc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:35 +0000
Subject: [PATCH 29/39] fix: use the key the keystore has now, not the one
 first used with its number

---
 ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py |  9 ++++++---
 ccnpy/flic/RsaOaepCtx/RsaOaepImpl.py      |  3 +++
 ccnpy/flic/tree/DecryptorCache.py         | 14 ++++++++------
 3 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py b/ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py
index 3ba9161..b10f4ed 100755
--- a/ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py
+++ b/ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py
@@ -19,7 +19,7 @@ from ..ManifestDecryptor import ManifestDecryptor
 from ..tlvs.KeyNumber import KeyNumber
 from ..tlvs.RsaOaepCtx import RsaOaepCtx
 from ...core.KeyId import KeyId
-from ...crypto.InsecureKeystore import InsecureKeystore
+from ...crypto.InsecureKeystore import InsecureKeystore, KeyNumberNotFoundError
 
 
 class RsaOaepDecryptor(ManifestDecryptor):
@@ -41,8 +41,11 @@ class RsaOaepDecryptor(ManifestDecryptor):
 
     def _get_impl(self, security_ctx: RsaOaepCtx) -> RsaOaepImpl:
         try:
-            return self._cache.get(key_id=security_ctx.key_id(), key_number=security_ctx.key_number())
-        except KeyError:
+            impl = self._cache.get(key_id=security_ctx.key_id(), key_number=security_ctx.key_number())
+            # the keystore may have got another key for the number since the last time
+            if impl.uses(self._keystore.get_aes_key(security_ctx.key_number())):
+                return impl
+        except (KeyError, KeyNumberNotFoundError):
             pass
 
         impl = RsaOaepImpl.create(keystore=self._keystore, rsa_oaep_ctx=security_ctx)
diff --git a/ccnpy/flic/RsaOaepCtx/RsaOaepImpl.py b/ccnpy/flic/RsaOaepCtx/RsaOaepImpl.py
index 5a4b91e..e8eb989 100755
--- a/ccnpy/flic/RsaOaepCtx/RsaOaepImpl.py
+++ b/ccnpy/flic/RsaOaepCtx/RsaOaepImpl.py
@@ -114,6 +114,9 @@ class RsaOaepImpl(AeadImpl):
     def __repr__(self):
         return f'RsaOaepImpl: ({self._params}, {self._wrapper})'
 
+    def uses(self, aead_params: AeadParameters) -> bool:
+        return self._params is aead_params
+
     def encrypt(self, node: Node, include_wrapper: bool = False):
         """
 
diff --git a/ccnpy/flic/tree/DecryptorCache.py b/ccnpy/flic/tree/DecryptorCache.py
index a41fb58..f21ce77 100644
--- a/ccnpy/flic/tree/DecryptorCache.py
+++ b/ccnpy/flic/tree/DecryptorCache.py
@@ -32,6 +32,7 @@ class DecryptorCache:
     def __init__(self, keystore: InsecureKeystore):
         self._keystore = keystore
         self._last_key_num = None
+        self._last_params = None
         self._last_decryptor = None
         self._oaep_decryptor = RsaOaepDecryptor(keystore=self._keystore)
 
@@ -41,15 +42,16 @@ class DecryptorCache:
             return self._oaep_decryptor
 
         key_num = security_ctx.key_number()
-        if key_num != self._last_key_num:
-            # _create() throws if there is no such key, so do not remember the key number before it is done
-            self._last_decryptor = self._create(security_ctx)
+        # throws if there is no such key; the keystore may have got another key for the number since the last time
+        params = self._keystore.get_aes_key(key_num)
+        if key_num != self._last_key_num or params is not self._last_params:
+            self._last_decryptor = self._create(security_ctx, params)
             self._last_key_num = key_num
+            self._last_params = params
         return self._last_decryptor
 
-    def _create(self, security_ctx: AeadSecurityCtx) -> ManifestDecryptor:
+    def _create(self, security_ctx: AeadSecurityCtx, params: AeadParameters) -> ManifestDecryptor:
         if isinstance(security_ctx, AeadCtx):
-            key_num = security_ctx.key_number()
-            return AeadDecryptor(self._keystore.get_aes_key(key_num))
+            return AeadDecryptor(params)
 
         raise ValueError(f'Unsupported security context: {security_ctx}')
-- 
2.43.0


From 6e437d185b303289a08ce909b1138b2222df0a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:25 +0000
Subject: [PATCH 30/39] fix: the manifest reader uses the writer's default key
 number

---
 ccnpy/apps/cli_utils.py       | 7 +++++++
 ccnpy/apps/manifest_reader.py | 3 ++-
 ccnpy/apps/manifest_writer.py | 9 +++------
 ccnpy/apps/packet_reader.py   | 4 +++-
 4 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/ccnpy/apps/cli_utils.py b/ccnpy/apps/cli_utils.py
index a1dcf0f..f779dd6 100644
--- a/ccnpy/apps/cli_utils.py
+++ b/ccnpy/apps/cli_utils.py
@@ -13,6 +13,7 @@
 #  limitations under the License.
 import argparse
 import getpass
+import hashlib
 import logging
 import uuid
 from typing import Optional
@@ -173,6 +174,12 @@ def fixup_key_password(args, ask_for_pass: bool = True):
     if isinstance(args.wrap_pass, str):
         args.wrap_pass = args.wrap_pass.encode()
 
+def fixup_key_number(args):
+    """The default key number is a hash of the key, so the writer and the reader of a manifest agree on it"""
+    if args.enc_key is not None and args.key_num is None:
+        # hash() is different in every process, and may be negative
+        args.key_num = KeyNumber(hashlib.sha256(args.enc_key).digest()[:8])
+
 def create_keystore(args):
     keystore = InsecureKeystore()
     aead_params = aead_parameters_from_cli(args)
diff --git a/ccnpy/apps/manifest_reader.py b/ccnpy/apps/manifest_reader.py
index d6407a0..eae139d 100755
--- a/ccnpy/apps/manifest_reader.py
+++ b/ccnpy/apps/manifest_reader.py
@@ -22,7 +22,7 @@ from ccnpy.core.Name import Name
 from ccnpy.crypto.InsecureKeystore import InsecureKeystore
 from ccnpy.flic.tree.Traversal import Traversal
 from ccnpy.flic.tree.TreeIO import TreeIO
-from .cli_utils import add_encryption_cli_args, fixup_key_password, create_keystore
+from .cli_utils import add_encryption_cli_args, fixup_key_password, fixup_key_number, create_keystore
 
 
 class ManifestReader(ABC):
@@ -147,6 +147,7 @@ def run():
         exit(-1)
 
     fixup_key_password(args, ask_for_pass=False)
+    fixup_key_number(args)
 
     keystore = create_keystore(args)
 
diff --git a/ccnpy/apps/manifest_writer.py b/ccnpy/apps/manifest_writer.py
index 6279a08..793590e 100755
--- a/ccnpy/apps/manifest_writer.py
+++ b/ccnpy/apps/manifest_writer.py
@@ -14,7 +14,6 @@
 
 
 import argparse
-import hashlib
 import logging
 from datetime import datetime
 
@@ -24,10 +23,10 @@ from ccnpy.core.Packet import PacketWriter, Packet
 from ccnpy.flic.ManifestTree import ManifestTree
 from ccnpy.flic.ManifestTreeOptions import ManifestTreeOptions
 from ccnpy.flic.name_constructor.SchemaType import SchemaType
-from ccnpy.flic.tlvs.KeyNumber import KeyNumber
 from ccnpy.flic.tlvs.Locators import Locators
 from ccnpy.flic.tree.TreeIO import TreeIO
-from .cli_utils import add_encryption_cli_args, rsa_signer_from_cli_args, fixup_key_password, encryptor_from_cli_args
+from .cli_utils import add_encryption_cli_args, rsa_signer_from_cli_args, fixup_key_password, fixup_key_number, \
+    encryptor_from_cli_args
 
 
 class ManifestWriter:
@@ -151,9 +150,7 @@ def run():
 
     fixup_key_password(args)
 
-    if args.enc_key is not None and args.key_num is None:
-        # hash() is different in every process, and may be negative
-        args.key_num = KeyNumber(hashlib.sha256(args.enc_key).digest()[:8])
+    fixup_key_number(args)
 
     if args.use_tcp:
         packet_writer = TreeIO.PacketNetworkWriter("127.0.0.1", 9896)
diff --git a/ccnpy/apps/packet_reader.py b/ccnpy/apps/packet_reader.py
index 5338b57..3289fd4 100755
--- a/ccnpy/apps/packet_reader.py
+++ b/ccnpy/apps/packet_reader.py
@@ -21,7 +21,8 @@ from ccnpy.core.ContentObject import ContentObject
 from ccnpy.core.DisplayFormatter import DisplayFormatter
 from ccnpy.core.Packet import Packet
 from ccnpy.flic.tlvs.Manifest import Manifest
-from .cli_utils import add_encryption_cli_args, aead_decryptor_from_cli_args, fixup_key_password, create_keystore
+from .cli_utils import add_encryption_cli_args, aead_decryptor_from_cli_args, fixup_key_password, fixup_key_number, \
+    create_keystore
 
 
 class PacketReader:
@@ -83,6 +84,7 @@ def run():
 
     args = parser.parse_args()
     fixup_key_password(args, ask_for_pass=False)
+    fixup_key_number(args)
     reader = PacketReader(args)
     reader.read()
 
-- 
2.43.0


From dc46d1935848dfa0541f49decea6c6f771f2e562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:04 +0000
Subject: [PATCH 31/39] fix: show a name whose segments are not UTF-8

---
 ccnpy/core/Name.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/core/Name.py b/ccnpy/core/Name.py
index 5392289..40ab285 100755
--- a/ccnpy/core/Name.py
+++ b/ccnpy/core/Name.py
@@ -58,7 +58,7 @@ class NameComponent(Tlv):
         if t == NameComponent.__T_CHUNKID:
             return f'ChunkId={Tlv.array_to_number(self.value())}'
         if t == NameComponent.__T_NAMESEGMENT:
-            return f'Name={self.value().decode('UTF-8')}'
+            return f'Name={bytes(self.value()).decode('UTF-8', errors='backslashreplace')}'
         if t == NameComponent.__T_MANIFESTID:
             return f'ManifestId={Tlv.array_to_number(self.value())}'
         if t == NameComponent.__T_IPID:
-- 
2.43.0


From 85a75645fb95371b471335ab0017b2fa5ac90291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:39 +0000
Subject: [PATCH 32/39] fix: show a Content Object whose payload is missing or
 does not fit its type

---
 ccnpy/core/ContentObject.py | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/ccnpy/core/ContentObject.py b/ccnpy/core/ContentObject.py
index ac03b4a..b24f7f6 100755
--- a/ccnpy/core/ContentObject.py
+++ b/ccnpy/core/ContentObject.py
@@ -24,7 +24,6 @@ from .Payload import Payload
 from .PayloadType import PayloadType
 from .Tlv import Tlv
 from .TlvType import TlvType
-from ..exceptions.ParseError import ParseError
 
 
 class ContentObject(TlvType):
@@ -146,20 +145,24 @@ class ContentObject(TlvType):
                                             self._final_chunk_id])
 
     def __repr__(self):
-        if self.is_manifest():
-            from ccnpy.flic.tlvs.Manifest import Manifest
-            try:
-                payload = Manifest.deserialize(self._payload.value())
-            except ParseError as e:
-                payload = self._payload.value()
-
-        elif self.is_link():
-            payload = Link.deserialize(self._payload.value())
-        else:
-            if self.USE_BRIEF_OUTPUT:
-                payload = f'(payload {len(self._payload)} bytes)'
-            else:
-                payload = self.payload()
+        payload = self.payload()
+        if payload is not None:
+            if self.is_manifest():
+                from ccnpy.flic.tlvs.Manifest import Manifest
+                try:
+                    payload = Manifest.deserialize(payload.value())
+                except Exception:
+                    # what is not a manifest is shown as it is
+                    payload = payload.value()
+
+            elif self.is_link():
+                try:
+                    payload = Link.deserialize(payload.value())
+                except Exception:
+                    payload = payload.value()
+
+            elif self.USE_BRIEF_OUTPUT:
+                payload = f'(payload {len(payload)} bytes)'
 
         return "CO: {%r, %r, %r, %r, %r}" % (self.name(), self.expiry_time(), self.payload_type(), payload, self._final_chunk_id)
 
-- 
2.43.0


From 6e16678aa646626bcce88dd18bf7dd1e163bbe14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:01 +0000
Subject: [PATCH 33/39] fix: packet_reader without the key of an encrypted
 manifest

---
 ccnpy/apps/packet_reader.py | 4 +++-
 ccnpy/apps/packet_utils.py  | 7 ++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/ccnpy/apps/packet_reader.py b/ccnpy/apps/packet_reader.py
index 3289fd4..ac61a89 100755
--- a/ccnpy/apps/packet_reader.py
+++ b/ccnpy/apps/packet_reader.py
@@ -65,8 +65,10 @@ class PacketReader:
             manifest = Manifest.from_content_object(packet.body())
             # if manifest is not encrypted, we already output in the packet dump, no need to repeat
             if manifest.is_encrypted():
+                # None without the key to decrypt it
                 manifest = decrypt_manifest(keystore=self._keystore, manifest=manifest)
-                self._output(manifest)
+                if manifest is not None:
+                    self._output(manifest)
 
 
 def run():
diff --git a/ccnpy/apps/packet_utils.py b/ccnpy/apps/packet_utils.py
index 92c0909..4e6d420 100644
--- a/ccnpy/apps/packet_utils.py
+++ b/ccnpy/apps/packet_utils.py
@@ -80,7 +80,12 @@ def decrypt_manifest(keystore: InsecureKeystore, manifest: Manifest) -> Manifest
         print(f"Unsupported encryption mode: {security_ctx}")
         return None
 
+    if decryptor is None:
+        return None
+
     try:
         return decryptor.decrypt_manifest(manifest)
-    except DecryptionError as e:
+    except (DecryptionError, KeyIdNotFoundError, ValueError) as e:
+        # ValueError: there is no usable RSA key for the wrapped key, or no wrapped key in this manifest
         print(f"Failed decryption: {e}")
+        return None
-- 
2.43.0


From b5e45aa3f21ab40ef573c25893b6d9d9786c04c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:10 +0000
Subject: [PATCH 34/39] fix: the graph label of an object with an empty name

---
 ccnpy/flic/tree/ManifestGraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/flic/tree/ManifestGraph.py b/ccnpy/flic/tree/ManifestGraph.py
index 700ec69..6804455 100644
--- a/ccnpy/flic/tree/ManifestGraph.py
+++ b/ccnpy/flic/tree/ManifestGraph.py
@@ -64,7 +64,7 @@ class ManifestGraph:
 
     @classmethod
     def _label_from_name(cls, hash_value: HashValue, name: Name):
-        if name is not None:
+        if name is not None and name.count() > 0:
             last_segment = name.component(name.count()-1)
             if last_segment.type() in [NameComponent.manifest_id_type(), NameComponent.chunk_id_type()]:
                 return str(last_segment.value_as_number())
-- 
2.43.0


From 354c29a737986662bbd1ea1e788b8aa0f5e9931f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:36 +0000
Subject: [PATCH 35/39] fix: compare packets and manifests of which only one
 has an optional field

---
 ccnpy/core/ContentObject.py            | 2 ++
 ccnpy/core/FixedHeader.py              | 2 ++
 ccnpy/core/KeyLink.py                  | 2 ++
 ccnpy/core/Packet.py                   | 2 ++
 ccnpy/core/PayloadType.py              | 2 ++
 ccnpy/core/Timestamp.py                | 2 ++
 ccnpy/core/ValidationAlg.py            | 2 ++
 ccnpy/core/ValidationPayload.py        | 2 ++
 ccnpy/flic/tlvs/GroupData.py           | 2 ++
 ccnpy/flic/tlvs/Locator.py             | 2 ++
 ccnpy/flic/tlvs/Locators.py            | 2 ++
 ccnpy/flic/tlvs/NcSchema.py            | 2 ++
 ccnpy/flic/tlvs/Node.py                | 2 ++
 ccnpy/flic/tlvs/NodeData.py            | 2 ++
 ccnpy/flic/tlvs/SuffixComponentType.py | 2 ++
 ccnpy/flic/tlvs/Vendor.py              | 2 ++
 16 files changed, 32 insertions(+)

diff --git a/ccnpy/core/ContentObject.py b/ccnpy/core/ContentObject.py
index b24f7f6..e2ae197 100755
--- a/ccnpy/core/ContentObject.py
+++ b/ccnpy/core/ContentObject.py
@@ -167,6 +167,8 @@ class ContentObject(TlvType):
         return "CO: {%r, %r, %r, %r, %r}" % (self.name(), self.expiry_time(), self.payload_type(), payload, self._final_chunk_id)
 
     def __eq__(self, other):
+        if not isinstance(other, ContentObject):
+            return False
         return self.__dict__ == other.__dict__
 
     def __len__(self):
diff --git a/ccnpy/core/FixedHeader.py b/ccnpy/core/FixedHeader.py
index 2e4e81e..13fba3e 100755
--- a/ccnpy/core/FixedHeader.py
+++ b/ccnpy/core/FixedHeader.py
@@ -51,6 +51,8 @@ class FixedHeader:
                 DisplayFormatter.hexlify(self._fields), self._header_length)
 
     def __eq__(self, other):
+        if not isinstance(other, FixedHeader):
+            return False
         if self.__dict__ == other.__dict__:
             return True
         return False
diff --git a/ccnpy/core/KeyLink.py b/ccnpy/core/KeyLink.py
index 38a439d..623b44a 100755
--- a/ccnpy/core/KeyLink.py
+++ b/ccnpy/core/KeyLink.py
@@ -31,6 +31,8 @@ class KeyLink(TlvType):
         self._tlv = Tlv(self.class_type(), link)
 
     def __eq__(self, other):
+        if not isinstance(other, KeyLink):
+            return False
         return self.__dict__ == other.__dict__
 
     def __repr__(self):
diff --git a/ccnpy/core/Packet.py b/ccnpy/core/Packet.py
index 79d1087..6142016 100755
--- a/ccnpy/core/Packet.py
+++ b/ccnpy/core/Packet.py
@@ -90,6 +90,8 @@ class Packet:
         return array.array("B", byte_list)
 
     def __eq__(self, other):
+        if not isinstance(other, Packet):
+            return False
         return self.__dict__ == other.__dict__
 
     def __repr__(self):
diff --git a/ccnpy/core/PayloadType.py b/ccnpy/core/PayloadType.py
index c984e5b..1224a73 100755
--- a/ccnpy/core/PayloadType.py
+++ b/ccnpy/core/PayloadType.py
@@ -50,6 +50,8 @@ class PayloadType(TlvType):
         return "PLDTYP: %r" % self.__to_string()
 
     def __eq__(self, other):
+        if not isinstance(other, PayloadType):
+            return False
         return self.__dict__ == other.__dict__
 
     @classmethod
diff --git a/ccnpy/core/Timestamp.py b/ccnpy/core/Timestamp.py
index 1878b6b..af2f684 100755
--- a/ccnpy/core/Timestamp.py
+++ b/ccnpy/core/Timestamp.py
@@ -40,6 +40,8 @@ class Timestamp(TlvType, ABC):
         self._wire_format = self._tlv.serialize()
 
     def __eq__(self, other):
+        if not isinstance(other, Timestamp):
+            return False
         return self.timestamp() == other.timestamp()
 
     def __repr__(self):
diff --git a/ccnpy/core/ValidationAlg.py b/ccnpy/core/ValidationAlg.py
index b3468ef..a3726dd 100755
--- a/ccnpy/core/ValidationAlg.py
+++ b/ccnpy/core/ValidationAlg.py
@@ -76,6 +76,8 @@ class ValidationAlg_Crc32c(ValidationAlg):
                               Tlv(self.class_type(), []))
 
     def __eq__(self, other):
+        if not isinstance(other, ValidationAlg_Crc32c):
+            return False
         return self.__dict__ == other.__dict__
 
     def __len__(self):
diff --git a/ccnpy/core/ValidationPayload.py b/ccnpy/core/ValidationPayload.py
index 42e3fec..5f373a2 100755
--- a/ccnpy/core/ValidationPayload.py
+++ b/ccnpy/core/ValidationPayload.py
@@ -31,6 +31,8 @@ class ValidationPayload(TlvType):
         self._tlv = Tlv(self.class_type(), self._payload)
 
     def __eq__(self, other):
+        if not isinstance(other, ValidationPayload):
+            return False
         return self.payload() == other.payload()
 
     def __repr__(self):
diff --git a/ccnpy/flic/tlvs/GroupData.py b/ccnpy/flic/tlvs/GroupData.py
index 8a18be9..bc97379 100755
--- a/ccnpy/flic/tlvs/GroupData.py
+++ b/ccnpy/flic/tlvs/GroupData.py
@@ -76,6 +76,8 @@ class GroupData(TlvType):
         return len(self._tlv)
 
     def __eq__(self, other):
+        if not isinstance(other, GroupData):
+            return False
         return self.__dict__ == other.__dict__
 
     def __repr__(self):
diff --git a/ccnpy/flic/tlvs/Locator.py b/ccnpy/flic/tlvs/Locator.py
index d8bf315..9fae4d9 100755
--- a/ccnpy/flic/tlvs/Locator.py
+++ b/ccnpy/flic/tlvs/Locator.py
@@ -64,6 +64,8 @@ class Locator(TlvType):
         return len(self._tlv)
 
     def __eq__(self, other):
+        if not isinstance(other, Locator):
+            return False
         return self.__dict__ == other.__dict__
 
     def __repr__(self):
diff --git a/ccnpy/flic/tlvs/Locators.py b/ccnpy/flic/tlvs/Locators.py
index 3316d38..8a4becc 100755
--- a/ccnpy/flic/tlvs/Locators.py
+++ b/ccnpy/flic/tlvs/Locators.py
@@ -69,6 +69,8 @@ class Locators(TlvType):
         return len(self._tlv)
 
     def __eq__(self, other):
+        if not isinstance(other, Locators):
+            return False
         if self.__dict__ == other.__dict__:
             return True
         return False
diff --git a/ccnpy/flic/tlvs/NcSchema.py b/ccnpy/flic/tlvs/NcSchema.py
index a314096..e3225ef 100644
--- a/ccnpy/flic/tlvs/NcSchema.py
+++ b/ccnpy/flic/tlvs/NcSchema.py
@@ -32,6 +32,8 @@ class NcSchema(TlvType, ABC):
     Generic supertype of the name constructor schemas
     """
     def __eq__(self, other):
+        if not isinstance(other, NcSchema):
+            return False
         return self.__dict__ == other.__dict__
 
     @classmethod
diff --git a/ccnpy/flic/tlvs/Node.py b/ccnpy/flic/tlvs/Node.py
index 800101d..f90b14d 100755
--- a/ccnpy/flic/tlvs/Node.py
+++ b/ccnpy/flic/tlvs/Node.py
@@ -113,6 +113,8 @@ class Node(TlvType):
         return len(self._tlv)
 
     def __eq__(self, other):
+        if not isinstance(other, Node):
+            return False
         if self.__dict__ == other.__dict__:
             return True
         return False
diff --git a/ccnpy/flic/tlvs/NodeData.py b/ccnpy/flic/tlvs/NodeData.py
index c28e789..86c0ebb 100755
--- a/ccnpy/flic/tlvs/NodeData.py
+++ b/ccnpy/flic/tlvs/NodeData.py
@@ -95,6 +95,8 @@ class NodeData(TlvType):
         return len(self._tlv)
 
     def __eq__(self, other):
+        if not isinstance(other, NodeData):
+            return False
         return self.__dict__ == other.__dict__
 
     def __repr__(self):
diff --git a/ccnpy/flic/tlvs/SuffixComponentType.py b/ccnpy/flic/tlvs/SuffixComponentType.py
index 0ebbec4..50543b4 100755
--- a/ccnpy/flic/tlvs/SuffixComponentType.py
+++ b/ccnpy/flic/tlvs/SuffixComponentType.py
@@ -43,6 +43,8 @@ class SuffixComponentType(TlvType):
         return "LeafSize: %02X" % self._value
 
     def __eq__(self, other):
+        if not isinstance(other, SuffixComponentType):
+            return False
         return self.__dict__ == other.__dict__
 
     def value(self):
diff --git a/ccnpy/flic/tlvs/Vendor.py b/ccnpy/flic/tlvs/Vendor.py
index 32c10cc..9174cff 100644
--- a/ccnpy/flic/tlvs/Vendor.py
+++ b/ccnpy/flic/tlvs/Vendor.py
@@ -46,6 +46,8 @@ class Vendor(TlvType):
         return len(self._tlv)
 
     def __eq__(self, other):
+        if not isinstance(other, Vendor):
+            return False
         if self.__dict__ == other.__dict__:
             return True
         return False
-- 
2.43.0


From af8caf626965ab884fe0acbb12e3caf93edca8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:44 +0000
Subject: [PATCH 36/39] fix: numbers, octets and times of different types are
 not equal

---
 ccnpy/core/Timestamp.py | 2 +-
 ccnpy/core/TlvType.py   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ccnpy/core/Timestamp.py b/ccnpy/core/Timestamp.py
index af2f684..caa4cef 100755
--- a/ccnpy/core/Timestamp.py
+++ b/ccnpy/core/Timestamp.py
@@ -42,7 +42,7 @@ class Timestamp(TlvType, ABC):
     def __eq__(self, other):
         if not isinstance(other, Timestamp):
             return False
-        return self.timestamp() == other.timestamp()
+        return self._tlv == other._tlv
 
     def __repr__(self):
         return "%r: %r" % (self.__class__.__name__, self.datetime().isoformat())
diff --git a/ccnpy/core/TlvType.py b/ccnpy/core/TlvType.py
index dd1fe93..a295f8d 100755
--- a/ccnpy/core/TlvType.py
+++ b/ccnpy/core/TlvType.py
@@ -132,7 +132,7 @@ class IntegerTlvType(TlvType, ABC):
     def __eq__(self, other):
         if not isinstance(other, IntegerTlvType):
             return False
-        return self._value == other._value
+        return self._tlv == other._tlv
 
     def __hash__(self):
         return hash(self._tlv)
@@ -185,7 +185,7 @@ class OctetTlvType(TlvType, ABC):
     def __eq__(self, other):
         if not isinstance(other, OctetTlvType):
             return False
-        return self._value == other._value
+        return self._tlv == other._tlv
 
     def __repr__(self):
         return DisplayFormatter.hexlify(self._value)
-- 
2.43.0


From dbba4fb386b7c59fc0594cf4f4575558ef71623a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:09 +0000
Subject: [PATCH 37/39] fix: manifest_reader writes the bytes of the payloads
 to standard output

It decoded each payload as UTF-8 and dropped what could not be decoded: all of a
binary file's other bytes, and any character divided between two payloads.
---
 ccnpy/apps/manifest_reader.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ccnpy/apps/manifest_reader.py b/ccnpy/apps/manifest_reader.py
index eae139d..e1e1ad8 100755
--- a/ccnpy/apps/manifest_reader.py
+++ b/ccnpy/apps/manifest_reader.py
@@ -51,9 +51,13 @@ class StdOutWrapper:
             self._out = None
 
     def write(self, value):
-        if not isinstance(value, str):
-            value = value.tobytes().decode('utf-8', errors='ignore')
-        self._out.write(value)
+        if isinstance(value, str):
+            self._out.write(value)
+        else:
+            # the payloads are bytes (a character may even be divided between two of them), so write them as they are
+            self._out.flush()
+            self._out.buffer.write(value)
+            self._out.buffer.flush()
 
 class ManifestNetworkReader(ManifestReader):
     pass
-- 
2.43.0


From 07f7e3a40f45780b1c02d179c744ed07600f78f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:16 +0000
Subject: [PATCH 38/39] fix: ManifestFactory.build_packet signs with the signer
 it is given

It used the tree options' signer instead (and failed if that was None).
---
 ccnpy/flic/ManifestFactory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccnpy/flic/ManifestFactory.py b/ccnpy/flic/ManifestFactory.py
index 92e3fa0..c22a52b 100755
--- a/ccnpy/flic/ManifestFactory.py
+++ b/ccnpy/flic/ManifestFactory.py
@@ -99,8 +99,8 @@ class ManifestFactory:
                                           expiry_time=expiry_time)
 
         if signer is not None:
-            validation_alg = self._tree_options.signer.validation_alg()
-            validation_payload = self._tree_options.signer.sign(body.serialize(), validation_alg.serialize())
+            validation_alg = signer.validation_alg()
+            validation_payload = signer.sign(body.serialize(), validation_alg.serialize())
             packet = Packet.create_signed_content_object(body, validation_alg, validation_payload)
         else:
             packet = Packet.create_content_object(body)
-- 
2.43.0


From eca0a21e4f6b9a8e7424cf67833c1b17959cce46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:30 +0000
Subject: [PATCH 39/39] fix: iterations of the same object do not disturb each
 other

The TLVs, hash values, links, timestamps and pointers kept the position of an
iteration in the object itself, so a second iteration (a nested loop, or one in
another thread) restarted or ended the first.
---
 ccnpy/core/HashValue.py     | 12 ++----------
 ccnpy/core/Link.py          | 14 ++------------
 ccnpy/core/Timestamp.py     | 12 ++----------
 ccnpy/core/Tlv.py           | 12 ++----------
 ccnpy/flic/tlvs/Pointers.py | 12 ++----------
 5 files changed, 10 insertions(+), 52 deletions(-)

diff --git a/ccnpy/core/HashValue.py b/ccnpy/core/HashValue.py
index 26de464..63b1467 100755
--- a/ccnpy/core/HashValue.py
+++ b/ccnpy/core/HashValue.py
@@ -54,16 +54,8 @@ class HashValue(TlvType):
         self._wire_format = self._tlv.serialize()
 
     def __iter__(self):
-        self._offset = 0
-        return self
-
-    def __next__(self):
-        if self._offset == len(self._wire_format):
-            raise StopIteration
-
-        output = self._wire_format[self._offset]
-        self._offset += 1
-        return output
+        # a new iterator every time, so iterations of the same object do not disturb each other
+        return iter(self._wire_format)
 
     def __alg_string(self):
         if self._hash_algorithm == HashFunctionType.T_SHA_256:
diff --git a/ccnpy/core/Link.py b/ccnpy/core/Link.py
index 223fd65..0e6b705 100755
--- a/ccnpy/core/Link.py
+++ b/ccnpy/core/Link.py
@@ -55,8 +55,6 @@ class Link:
         self._name = name
         self._keyid = keyid
         self._digest = digest
-        # for iteration
-        self._offset = 0
 
         self._wire_format = array.array("B", [])
         if self._name is not None:
@@ -80,16 +78,8 @@ class Link:
         return len(self._wire_format)
 
     def __iter__(self):
-        self._offset = 0
-        return self
-
-    def __next__(self):
-        if self._offset == len(self._wire_format):
-            raise StopIteration
-
-        output = self._wire_format[self._offset]
-        self._offset += 1
-        return output
+        # a new iterator every time, so iterations of the same object do not disturb each other
+        return iter(self._wire_format)
 
     def name(self) -> Optional[Name]:
         return self._name
diff --git a/ccnpy/core/Timestamp.py b/ccnpy/core/Timestamp.py
index caa4cef..f6d4e14 100755
--- a/ccnpy/core/Timestamp.py
+++ b/ccnpy/core/Timestamp.py
@@ -51,16 +51,8 @@ class Timestamp(TlvType, ABC):
         return len(self._tlv)
 
     def __iter__(self):
-        self._offset = 0
-        return self
-
-    def __next__(self):
-        if self._offset == len(self._wire_format):
-            raise StopIteration
-
-        output = self._wire_format[self._offset]
-        self._offset += 1
-        return output
+        # a new iterator every time, so iterations of the same object do not disturb each other
+        return iter(self._wire_format)
 
     def serialize(self):
         return self._tlv.serialize()
diff --git a/ccnpy/core/Tlv.py b/ccnpy/core/Tlv.py
index fff8b2d..2e075dc 100755
--- a/ccnpy/core/Tlv.py
+++ b/ccnpy/core/Tlv.py
@@ -82,16 +82,8 @@ class Tlv(Serializable):
         return 4 + self.length()
 
     def __iter__(self):
-        self._offset = 0
-        return self
-
-    def __next__(self):
-        if self._offset == len(self._wire_format):
-            raise StopIteration
-
-        output = self._wire_format[self._offset]
-        self._offset += 1
-        return output
+        # a new iterator every time, so iterations of the same object do not disturb each other
+        return iter(self._wire_format)
 
     def __eq__(self, other):
         if not isinstance(other, Tlv):
diff --git a/ccnpy/flic/tlvs/Pointers.py b/ccnpy/flic/tlvs/Pointers.py
index 08ee3be..b7f4797 100755
--- a/ccnpy/flic/tlvs/Pointers.py
+++ b/ccnpy/flic/tlvs/Pointers.py
@@ -62,16 +62,8 @@ class Pointers(TlvType):
         return self._hash_values[item]
 
     def __iter__(self):
-        self._offset = 0
-        return self
-
-    def __next__(self):
-        if self._offset == len(self):
-            raise StopIteration
-
-        output = self[self._offset]
-        self._offset += 1
-        return output
+        # a new iterator every time, so iterations of the same object do not disturb each other
+        return iter(self._hash_values)
 
     @classmethod
     def parse(cls, tlv):
-- 
2.43.0

