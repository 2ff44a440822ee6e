From 4942b6237e8cd8b0b8e034a713f7af1c8bd6f1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:47 +0000
Subject: [PATCH 01/21] fix: never build the new database over the destination
 when it is named *.tmp

The temporary name replaced the suffix, so for 'x.tmp' it was the destination
itself: a failing save truncated and then deleted the database.
---
 pykeepass/pykeepass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index ec8b506..b78cdeb 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -166,7 +166,7 @@ class PyKeePass:
         else:
             # save to temporary file to prevent database clobbering
             # see issues 223, 101
-            filename_tmp = Path(filename).with_suffix('.tmp')
+            filename_tmp = Path(filename).with_name(Path(filename).name + '.tmp')
             try:
                 KDBX.build_file(
                     self.kdbx,
-- 
2.43.0


From 6d32e0bf7a92e3a5e0de25fe0f2307d09fd12b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:47 +0000
Subject: [PATCH 02/21] fix: report the original error when the temporary file
 could not be created

os.remove() of the missing temporary file raised FileNotFoundError in the
handler and hid the exception which made the save fail.
---
 pykeepass/pykeepass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index b78cdeb..b890e6e 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -177,7 +177,7 @@ class PyKeePass:
                     decrypt=True
                 )
             except Exception as e:
-                os.remove(filename_tmp)
+                filename_tmp.unlink(missing_ok=True)
                 raise e
             shutil.move(filename_tmp, filename)
 
-- 
2.43.0


From 50a5b6265f285eebc884fbd0f92d1bdb67022793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:47 +0000
Subject: [PATCH 03/21] fix: create_database passed transformed_key as the file
 name

---
 pykeepass/pykeepass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index b890e6e..ae7fc65 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -1056,7 +1056,7 @@ def create_database(
     keepass_instance.password = password
     keepass_instance.keyfile = keyfile
 
-    keepass_instance.save(transformed_key)
+    keepass_instance.save(transformed_key=transformed_key)
     return keepass_instance
 
 def debug_setup():
-- 
2.43.0


From 43fc855168e4664ce4abfafba072138619e13c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:47 +0000
Subject: [PATCH 04/21] fix: delete_binary left attachments of history entries
 behind

They then referred to the binary which moved into the freed position.
---
 pykeepass/pykeepass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index ae7fc65..d5fd29c 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -861,7 +861,7 @@ class PyKeePass:
             raise BinaryError('No such binary with id {}'.format(id))
 
         # remove all entry references to this attachment
-        for reference in self.find_attachments(id=id):
+        for reference in self.find_attachments(id=id, history=True):
             reference.delete()
 
         # decrement references greater than this id
-- 
2.43.0


From b5dc6e601b4da1ecefa46555162d13142b3389d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:47 +0000
Subject: [PATCH 05/21] fix: delete_binary on KDBX3 kept the old binary IDs

References were decremented but the ID attributes they refer to were not, and
the element was picked by document position instead of by ID.
---
 pykeepass/pykeepass.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index d5fd29c..041a30b 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -854,9 +854,15 @@ class PyKeePass:
                 # remove binary element from inner header
                 self.payload.inner_header.binary.pop(id)
             else:
-                # remove binary element from XML
-                binaries = self._xpath('/KeePassFile/Meta/Binaries', first=True)
-                binaries.remove(binaries.getchildren()[id])
+                # remove binary element from XML and close the gap in the IDs
+                binaries = sorted(
+                    self._xpath('/KeePassFile/Meta/Binaries/Binary'),
+                    key=lambda elem: int(elem.attrib['ID'])
+                )
+                removed = binaries.pop(id)
+                removed.getparent().remove(removed)
+                for binary_id, elem in enumerate(binaries):
+                    elem.attrib['ID'] = str(binary_id)
         except IndexError:
             raise BinaryError('No such binary with id {}'.format(id))
 
-- 
2.43.0


From 3165badbb7c82165c161cdb30d22c2deecd467b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:47 +0000
Subject: [PATCH 06/21] fix: delete_binary with a negative id removed the last
 binary

and decremented every attachment reference.
---
 pykeepass/pykeepass.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 041a30b..225966d 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -849,6 +849,8 @@ class PyKeePass:
         Raises:
             `IndexError`: raised when binary with given ID does not exist
         """
+        if id < 0:
+            raise BinaryError('No such binary with id {}'.format(id))
         try:
             if self.version >= (4, 0):
                 # remove binary element from inner header
-- 
2.43.0


From efacfd3e8f84bcc103bce16b596748e27dc2629f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:15 +0000
Subject: [PATCH 07/21] fix: textual times in KDBX4 databases could not be read

b64decode() ignores '-' and ':', so '2023-01-01T00:00:00Z' decodes to 12 bytes
and fails in struct.unpack() instead of in b64decode().
---
 pykeepass/pykeepass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 225966d..9db8655 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -1032,7 +1032,7 @@ class PyKeePass:
                         seconds=struct.unpack('<Q', base64.b64decode(text))[0]
                     )
                 )
-            except BinasciiError:
+            except (BinasciiError, struct.error):
                 return datetime.fromisoformat(text.replace('Z','+00:00')).replace(tzinfo=timezone.utc)
         else:
             return datetime.fromisoformat(text.replace('Z','+00:00')).replace(tzinfo=timezone.utc)
-- 
2.43.0


From a609a0dda457fc416409d3047848e4199f80d04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:15 +0000
Subject: [PATCH 08/21] fix: UTC offset of plaintext times was dropped when
 reading

A KDBX3 time set with an offset other than UTC was read back as a different instant.
---
 pykeepass/pykeepass.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 9db8655..5536f70 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -1033,9 +1033,17 @@ class PyKeePass:
                     )
                 )
             except (BinasciiError, struct.error):
-                return datetime.fromisoformat(text.replace('Z','+00:00')).replace(tzinfo=timezone.utc)
+                return self._decode_iso_time(text)
         else:
-            return datetime.fromisoformat(text.replace('Z','+00:00')).replace(tzinfo=timezone.utc)
+            return self._decode_iso_time(text)
+
+    def _decode_iso_time(self, text):
+        """`datetime.datetime`: Convert plaintext time to datetime.  UTC is assumed if it has no offset"""
+
+        date = datetime.fromisoformat(text.replace('Z','+00:00'))
+        if date.tzinfo is None:
+            return date.replace(tzinfo=timezone.utc)
+        return date.astimezone(timezone.utc)
 
 def create_database(
         filename, password=None, keyfile=None, transformed_key=None
-- 
2.43.0


From e170a80a881999566ceddaa733db0d6b100aff49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:15 +0000
Subject: [PATCH 09/21] fix: 64 byte keyfiles which only look hexadecimal could
 not be used

int(x, 16) also accepts a 0x prefix, signs, underscores and whitespace, which
codecs.decode(x, 'hex') rejects.
---
 pykeepass/kdbx_parsing/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykeepass/kdbx_parsing/common.py b/pykeepass/kdbx_parsing/common.py
index 00630ef..8d780f1 100644
--- a/pykeepass/kdbx_parsing/common.py
+++ b/pykeepass/kdbx_parsing/common.py
@@ -154,7 +154,7 @@ def compute_key_composite(password=None, keyfile=None):
         except (etree.XMLSyntaxError, UnicodeDecodeError, AttributeError):
             try:
                 try:
-                    int(keyfile_bytes, 16)
+                    codecs.decode(keyfile_bytes, 'hex')
                     is_hex = True
                 except ValueError:
                     is_hex = False
-- 
2.43.0


From 1713aba274dbc76074b1b1a3628e2e58aca264a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:15 +0000
Subject: [PATCH 10/21] fix: raise PayloadChecksumError for a KDBX3 block with
 a wrong index

---
 pykeepass/pykeepass.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 5536f70..3cd2ae7 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -129,7 +129,8 @@ class PyKeePass:
                 raise HeaderChecksumError("Corrupted database")
             elif e.path in (
                     '(parsing) -> body -> payload -> hmac_hash', # KDBX4
-                    '(parsing) -> xml -> block_hash' # KDBX3
+                    '(parsing) -> xml -> block_hash', # KDBX3
+                    '(parsing) -> xml -> block_index' # KDBX3
                     ):
                 raise PayloadChecksumError("Error reading database contents")
             else:
-- 
2.43.0


From 42c50876de78c256139ef554ce5867f84205460f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:15 +0000
Subject: [PATCH 11/21] fix: a failed read() changed filename and credentials
 of the open database

A following save() wrote the old contents over the other file.
---
 pykeepass/pykeepass.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 3cd2ae7..e1b8af3 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -87,11 +87,7 @@ class PyKeePass:
         """
 
         # TODO: - raise, no filename provided, database not open
-        self._password = password
-        self._keyfile = keyfile
-        if filename:
-            self.filename = filename
-        else:
+        if not filename:
             filename = self.filename
 
         try:
@@ -136,6 +132,11 @@ class PyKeePass:
             else:
                 raise
 
+        # only remember these once the database could be read
+        self.filename = filename
+        self._password = password
+        self._keyfile = keyfile
+
     def reload(self):
         """Reload current database using previously given credentials """
 
-- 
2.43.0


From b4f08364cf813d5bf9d62a43304086c043354d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:15 +0000
Subject: [PATCH 12/21] fix: setting a field to an invalid value deleted the
 field

The old element was removed before lxml rejected the new value.
---
 pykeepass/baseelement.py |  3 ++-
 pykeepass/entry.py       | 11 ++++++-----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/pykeepass/baseelement.py b/pykeepass/baseelement.py
index 048e5cf..b0fd10b 100644
--- a/pykeepass/baseelement.py
+++ b/pykeepass/baseelement.py
@@ -46,10 +46,11 @@ class BaseElement:
             return v.text
 
     def _set_subelement_text(self, tag, value):
+        new = getattr(E, tag)(value)
         v = self._element.find(tag)
         if v is not None:
             self._element.remove(v)
-        self._element.append(getattr(E, tag)(value))
+        self._element.append(new)
 
     @property
     def group(self):
diff --git a/pykeepass/entry.py b/pykeepass/entry.py
index 3ef7e4e..4e994c8 100644
--- a/pykeepass/entry.py
+++ b/pykeepass/entry.py
@@ -114,13 +114,14 @@ class Entry(BaseElement):
         else:
             protected_str = str(protected)
 
-        if field is not None:
-            self._element.remove(field)
-
         if protected_str is None:
-            self._element.append(E.String(E.Key(key), E.Value(value)))
+            new = E.String(E.Key(key), E.Value(value))
         else:
-            self._element.append(E.String(E.Key(key), E.Value(value, Protected=protected_str)))
+            new = E.String(E.Key(key), E.Value(value, Protected=protected_str))
+
+        if field is not None:
+            self._element.remove(field)
+        self._element.append(new)
 
     def _get_string_field_keys(self, exclude_reserved=False):
         results = [x.find('Key').text for x in self._element.findall('String')]
-- 
2.43.0


From 7179e5584c23ca358173ab756446cdcb50797717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:15 +0000
Subject: [PATCH 13/21] fix: uuid, tags and string search arguments could not
 be None

Like the other arguments (issue 308) they are now ignored then.
---
 pykeepass/pykeepass.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index e1b8af3..6b2bea6 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -409,18 +409,18 @@ class PyKeePass:
 
             # handle searching custom string fields
             if 'string' in kwargs:
-                for key, value in kwargs['string'].items():
+                for key, value in (kwargs['string'] or {}).items():
                     xp += keys_xp[regex]['string'].format(key, value, flags=flags)
 
                 kwargs.pop('string')
 
             # convert uuid to base64 form before building xpath
-            if 'uuid' in kwargs:
+            if kwargs.get('uuid') is not None:
                 kwargs['uuid'] = base64.b64encode(kwargs['uuid'].bytes).decode('utf-8')
 
             # convert tags to semicolon separated string before building xpath
             # FIXME: this isn't a reliable way to search tags.  e.g. searching ['tag1', 'tag2'] will match 'tag1tag2
-            if 'tags' in kwargs:
+            if kwargs.get('tags') is not None:
                 kwargs['tags'] = ' and '.join(f'contains(text(),"{t}")' for t in kwargs['tags'])
 
             # build xpath to filter results with specified attributes
-- 
2.43.0


From 85bad764e6b36a1af583444a62b409d6b8d65021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:15 +0000
Subject: [PATCH 14/21] fix: kdf_algorithm and database_salt for KDBX 3.0 and
 4.1 databases

---
 pykeepass/pykeepass.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 6b2bea6..a78c354 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -202,9 +202,9 @@ class PyKeePass:
     def kdf_algorithm(self):
         """`str`: key derivation algorithm used by database during decryption.
         Can be one of 'aeskdf', 'argon2', or 'argon2id'"""
-        if self.version == (3, 1):
+        if self.version < (4, 0):
             return 'aeskdf'
-        elif self.version == (4, 0):
+        else:
             kdf_parameters = self.kdbx.header.value.dynamic_header.kdf_parameters.data.dict
             if kdf_parameters['$UUID'].value == kdf_uuids['argon2']:
                 return 'argon2'
@@ -224,7 +224,7 @@ class PyKeePass:
        """`bytes`: salt of database kdf. This can be used for adding additional
        credentials which are used in extension to current keyfile."""
 
-       if self.version == (3, 1):
+       if self.version < (4, 0):
             return self.kdbx.header.value.dynamic_header.transform_seed.data
 
        kdf_parameters = self.kdbx.header.value.dynamic_header.kdf_parameters.data.dict
-- 
2.43.0


From 2a17fe8ae509e64b24ddc64ec8dd2b41346afff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:03 +0000
Subject: [PATCH 15/21] fix: search values and field names containing quotes
 broke or altered the XPath query

---
 pykeepass/entry.py     | 11 ++++++-----
 pykeepass/pykeepass.py | 14 +++++++-------
 pykeepass/xpath.py     | 16 ++++++++++++++++
 3 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/pykeepass/entry.py b/pykeepass/entry.py
index 4e994c8..e4627ea 100644
--- a/pykeepass/entry.py
+++ b/pykeepass/entry.py
@@ -7,6 +7,7 @@ from lxml.objectify import ObjectifiedElement
 
 from . import attachment
 from .baseelement import BaseElement
+from .xpath import fill
 
 logger = logging.getLogger(__name__)
 reserved_keys = [
@@ -88,7 +89,7 @@ class Entry(BaseElement):
             `str` or `None`: field value
         """
 
-        field = self._xpath('String/Key[text()="{}"]/../Value'.format(key), history=True, first=True)
+        field = self._xpath(fill('String/Key[text()="{}"]/../Value', key), history=True, first=True)
         if field is not None:
             return field.text
 
@@ -104,11 +105,11 @@ class Entry(BaseElement):
 
         Note: pykeepass does not support memory protection
         """
-        field = self._xpath('String/Key[text()="{}"]/..'.format(key), history=True, first=True)
+        field = self._xpath(fill('String/Key[text()="{}"]/..', key), history=True, first=True)
 
         protected_str = None
         if protected is None:
-            protected_field = self._xpath('String/Key[text()="{}"]/../Value'.format(key), first=True)
+            protected_field = self._xpath(fill('String/Key[text()="{}"]/../Value', key), first=True)
             if protected_field is not None:
                 protected_str = protected_field.attrib.get("Protected")
         else:
@@ -355,7 +356,7 @@ class Entry(BaseElement):
     def delete_custom_property(self, key):
         if key not in self._get_string_field_keys(exclude_reserved=True):
             raise AttributeError('No such key: {}'.format(key))
-        prop = self._xpath('String/Key[text()="{}"]/..'.format(key), first=True)
+        prop = self._xpath(fill('String/Key[text()="{}"]/..', key), first=True)
         if prop is None:
             raise AttributeError('Could not find property element')
         self._element.remove(prop)
@@ -378,7 +379,7 @@ class Entry(BaseElement):
 
     def _is_property_protected(self, key):
         """Whether a property is protected."""
-        field = self._xpath('String/Key[text()="{}"]/../Value'.format(key), first=True)
+        field = self._xpath(fill('String/Key[text()="{}"]/../Value', key), first=True)
         if field is not None:
             return field.attrib.get("Protected", "False") == "True"
         return False
diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index a78c354..12ec187 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -26,7 +26,7 @@ from .exceptions import (
 )
 from .group import Group
 from .kdbx_parsing import KDBX, kdf_uuids
-from .xpath import attachment_xp, entry_xp, group_xp, path_xp
+from .xpath import attachment_xp, entry_xp, fill, group_xp, path_xp, quote
 
 logger = logging.getLogger(__name__)
 
@@ -395,11 +395,11 @@ class PyKeePass:
             element = path[-1] if len(path) > 0 else ''
             # build xpath from group_path and element
             for group in group_path:
-                xp += path_xp[regex]['group'].format(group, flags=flags)
+                xp += fill(path_xp[regex]['group'], group, flags=flags)
             if 'Entry' in prefix:
-                xp += path_xp[regex]['entry'].format(element, flags=flags)
+                xp += fill(path_xp[regex]['entry'], element, flags=flags)
             elif element and 'Group' in prefix:
-                xp += path_xp[regex]['group'].format(element, flags=flags)
+                xp += fill(path_xp[regex]['group'], element, flags=flags)
 
         else:
             if tree is not None:
@@ -410,7 +410,7 @@ class PyKeePass:
             # handle searching custom string fields
             if 'string' in kwargs:
                 for key, value in (kwargs['string'] or {}).items():
-                    xp += keys_xp[regex]['string'].format(key, value, flags=flags)
+                    xp += fill(keys_xp[regex]['string'], key, value, flags=flags)
 
                 kwargs.pop('string')
 
@@ -421,14 +421,14 @@ class PyKeePass:
             # convert tags to semicolon separated string before building xpath
             # FIXME: this isn't a reliable way to search tags.  e.g. searching ['tag1', 'tag2'] will match 'tag1tag2
             if kwargs.get('tags') is not None:
-                kwargs['tags'] = ' and '.join(f'contains(text(),"{t}")' for t in kwargs['tags'])
+                kwargs['tags'] = ' and '.join(f'contains(text(),{quote(t)})' for t in kwargs['tags'])
 
             # build xpath to filter results with specified attributes
             for key, value in kwargs.items():
                 if key not in keys_xp[regex]:
                     raise TypeError('Invalid keyword argument "{}"'.format(key))
                 if value is not None:
-                    xp += keys_xp[regex][key].format(value, flags=flags)
+                    xp += fill(keys_xp[regex][key], value, flags=flags)
 
         res = self._xpath(
             xp,
diff --git a/pykeepass/xpath.py b/pykeepass/xpath.py
index e07d312..299ef13 100644
--- a/pykeepass/xpath.py
+++ b/pykeepass/xpath.py
@@ -1,3 +1,19 @@
+def quote(value):
+    """Write a value as an XPath string literal.  XPath 1.0 literals have no escape character"""
+    value = str(value)
+    if '"' not in value:
+        return '"' + value + '"'
+    return 'concat("' + '", \'"\', "'.join(value.split('"')) + '")'
+
+
+def fill(template, *values, flags=None):
+    """Insert values into an XPath template, those for a "{}" placeholder as string literals"""
+    if '"{}"' in template:
+        template = template.replace('"{}"', '{}')
+        values = [quote(value) for value in values]
+    return template.format(*values, flags=flags)
+
+
 attachment_xp = {
     False: {
         'id': '/Value[@Ref="{}"]/..',
-- 
2.43.0


From baa1d33fc3ecc3798e711d6a94e81daec8c89eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:25 +0000
Subject: [PATCH 16/21] fix: deref failed on empty, identifier and circular
 references

---
 pykeepass/pykeepass.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 12ec187..9b4ba61 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -892,10 +892,15 @@ class PyKeePass:
             value (`str`): KeePass reference string to another field
 
         Returns:
-            `str`, `uuid.UUID` or `None` if no match found
+            `str` or `None` if no match found
 
         [fieldref]: https://keepass.info/help/base/fieldrefs.html
         """
+        return self._deref(value, ())
+
+    def _deref(self, value, parents):
+        """Dereference `value`.  `parents` are the references which led to it"""
+
         if not value:
             return value
         references = set(re.findall(r'({REF:([TUPANI])@([TUPANI]):([^}]+)})', value))
@@ -910,15 +915,27 @@ class PyKeePass:
             'I': 'uuid',
         }
         for ref, wanted_field, search_in, search_value in references:
+            # keep a reference which leads back to itself
+            if ref in parents:
+                continue
             wanted_field = field_to_attribute[wanted_field]
             search_in = field_to_attribute[search_in]
             if search_in == 'uuid':
-                search_value = uuid.UUID(search_value)
+                try:
+                    search_value = uuid.UUID(search_value)
+                except ValueError:
+                    return None
             ref_entry = self.find_entries(first=True, **{search_in: search_value})
             if ref_entry is None:
                 return None
-            value = value.replace(ref, getattr(ref_entry, wanted_field))
-        return self.deref(value)
+            if wanted_field == 'uuid':
+                wanted_value = ref_entry.uuid.hex.upper()
+            else:
+                wanted_value = self._deref(getattr(ref_entry, wanted_field) or '', parents + (ref,))
+            if wanted_value is None:
+                return None
+            value = value.replace(ref, wanted_value)
+        return value
 
 
     # ---------- Credential Changing and Expiry ----------
-- 
2.43.0


From b1e4e17e51e66d15eb54105ff077aa1fa4f41dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:03 +0000
Subject: [PATCH 17/21] fix: searched passwords were written to the debug log

---
 pykeepass/pykeepass.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 9b4ba61..3b874c8 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -349,7 +349,8 @@ class PyKeePass:
 
         if tree is None:
             tree = self.tree
-        logger.debug('xpath query: ' + xpath_str)
+        # string literals may contain passwords
+        logger.debug('xpath query: ' + re.sub(r'"[^"]*"|\'[^\']*\'', '"..."', xpath_str))
         elements = tree.xpath(
             xpath_str, namespaces={'re': 'http://exslt.org/regular-expressions'}
         )
-- 
2.43.0


From 6b8f0c91183f23a53b52a6c38c7b68848dd5ba03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:50 +0000
Subject: [PATCH 18/21] fix: searching for an empty value never matched

---
 pykeepass/xpath.py | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/pykeepass/xpath.py b/pykeepass/xpath.py
index 299ef13..39c9a88 100644
--- a/pykeepass/xpath.py
+++ b/pykeepass/xpath.py
@@ -17,7 +17,7 @@ def fill(template, *values, flags=None):
 attachment_xp = {
     False: {
         'id': '/Value[@Ref="{}"]/..',
-        'filename': '/Key[text()="{}"]/..'
+        'filename': '/Key[.="{}"]/..'
     },
     True: {
         'id': '/Value[re:test(@Ref, "{}", "{flags}")]/..',
@@ -27,8 +27,8 @@ attachment_xp = {
 
 path_xp = {
     False: {
-        'group': '/Group/Name[text()="{}"]/..',
-        'entry': '/Entry/String/Key[text()="Title"]/../Value[text()="{}"]/../..',
+        'group': '/Group/Name[.="{}"]/..',
+        'entry': '/Entry/String/Key[text()="Title"]/../Value[.="{}"]/../..',
     },
     True: {
         'group': '/Group/Name[re:test(text(), "{}", "{flags}")]/..',
@@ -38,18 +38,18 @@ path_xp = {
 
 entry_xp = {
     False: {
-        'title': '/String/Key[text()="Title"]/../Value[text()="{}"]/../..',
-        'username': '/String/Key[text()="UserName"]/../Value[text()="{}"]/../..',
-        'password': '/String/Key[text()="Password"]/../Value[text()="{}"]/../..',
-        'url': '/String/Key[text()="URL"]/../Value[text()="{}"]/../..',
-        'notes': '/String/Key[text()="Notes"]/../Value[text()="{}"]/../..',
-        'uuid': '/UUID[text()="{}"]/..',
+        'title': '/String/Key[text()="Title"]/../Value[.="{}"]/../..',
+        'username': '/String/Key[text()="UserName"]/../Value[.="{}"]/../..',
+        'password': '/String/Key[text()="Password"]/../Value[.="{}"]/../..',
+        'url': '/String/Key[text()="URL"]/../Value[.="{}"]/../..',
+        'notes': '/String/Key[text()="Notes"]/../Value[.="{}"]/../..',
+        'uuid': '/UUID[.="{}"]/..',
         'tags': '/Tags[{}]/..',
-        'string': '/String/Key[text()="{}"]/../Value[text()="{}"]/../..',
-        'autotype_sequence': '/AutoType/DefaultSequence[text()="{}"]/../..',
-        'autotype_window': '/AutoType/Association/Window[text()="{}"]/../../..',
-        'autotype_enabled': '/AutoType/Enabled[text()="{}"]/../..',
-        'otp': '/String/Key[text()="otp"]/../Value[text()="{}"]/../..',
+        'string': '/String/Key[.="{}"]/../Value[.="{}"]/../..',
+        'autotype_sequence': '/AutoType/DefaultSequence[.="{}"]/../..',
+        'autotype_window': '/AutoType/Association/Window[.="{}"]/../../..',
+        'autotype_enabled': '/AutoType/Enabled[.="{}"]/../..',
+        'otp': '/String/Key[text()="otp"]/../Value[.="{}"]/../..',
     },
     True: {
         'title': '/String/Key[text()="Title"]/../Value[re:test(text(), "{}", "{flags}")]/../..',
@@ -59,7 +59,7 @@ entry_xp = {
         'notes': '/String/Key[text()="Notes"]/../Value[re:test(text(), "{}", "{flags}")]/../..',
         'uuid': '/UUID[re:test(text(), "{}", "{flags}")]/..',
         'tags': '/Tags[{}]/..', # no regular expression support for tags
-        'string': '/String/Key[text()="{}"]/../Value[re:test(text(), "{}", "{flags}")]/../..',
+        'string': '/String/Key[.="{}"]/../Value[re:test(text(), "{}", "{flags}")]/../..',
         'autotype_sequence': '/AutoType/DefaultSequence[re:test(text(), "{}", "{flags}")]/../..',
         'autotype_window': '/AutoType/Association/Window[re:test(text(), "{}", "{flags}")]/../../..',
         'autotype_enabled': '/AutoType/Enabled[re:test(text(), "{}", "{flags}")]/../..',
@@ -69,9 +69,9 @@ entry_xp = {
 
 group_xp = {
     False: {
-        'name': '/Name[text()="{}"]/..',
-        'uuid': '/UUID[text()="{}"]/..',
-        'notes': '/Notes[text()="{}"]/..',
+        'name': '/Name[.="{}"]/..',
+        'uuid': '/UUID[.="{}"]/..',
+        'notes': '/Notes[.="{}"]/..',
     },
     True: {
         'name': '/Name[re:test(text(), "{}", "{flags}")]/..',
-- 
2.43.0


From 9bdc3aecebcd3e21990158faee4d15281705ece9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:33 +0000
Subject: [PATCH 19/21] fix: a UUID was used as a regular expression when
 searching with regex

---
 pykeepass/xpath.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykeepass/xpath.py b/pykeepass/xpath.py
index 39c9a88..5bf9026 100644
--- a/pykeepass/xpath.py
+++ b/pykeepass/xpath.py
@@ -57,7 +57,7 @@ entry_xp = {
         'password': '/String/Key[text()="Password"]/../Value[re:test(text(), "{}", "{flags}")]/../..',
         'url': '/String/Key[text()="URL"]/../Value[re:test(text(), "{}", "{flags}")]/../..',
         'notes': '/String/Key[text()="Notes"]/../Value[re:test(text(), "{}", "{flags}")]/../..',
-        'uuid': '/UUID[re:test(text(), "{}", "{flags}")]/..',
+        'uuid': '/UUID[.="{}"]/..',
         'tags': '/Tags[{}]/..', # no regular expression support for tags
         'string': '/String/Key[.="{}"]/../Value[re:test(text(), "{}", "{flags}")]/../..',
         'autotype_sequence': '/AutoType/DefaultSequence[re:test(text(), "{}", "{flags}")]/../..',
@@ -75,7 +75,7 @@ group_xp = {
     },
     True: {
         'name': '/Name[re:test(text(), "{}", "{flags}")]/..',
-        'uuid': '/UUID[re:test(text(), "{}", "{flags}")]/..',
+        'uuid': '/UUID[.="{}"]/..',
         'notes': '/Notes[re:test(text(), "{}", "{flags}")]/..',
     }
 }
-- 
2.43.0


From b63251a1de3566f771d475059df47f80c8343d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:44 +0000
Subject: [PATCH 20/21] fix: list KDBX3 binaries by their ID in whatever order
 they are stored

---
 pykeepass/pykeepass.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 3b874c8..6bdb187 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -779,7 +779,8 @@ class PyKeePass:
             binaries = [a.data[1:] for a in self.payload.inner_header.binary]
         else:
             binaries = []
-            for elem in self._xpath('/KeePassFile/Meta/Binaries/Binary'):
+            elems = self._xpath('/KeePassFile/Meta/Binaries/Binary')
+            for elem in sorted(elems, key=lambda elem: int(elem.attrib['ID'])):
                 if elem.text is not None:
                     if elem.get('Compressed') == 'True':
                         data = zlib.decompress(
@@ -790,7 +791,7 @@ class PyKeePass:
                         data = base64.b64decode(elem.text)
                 else:
                     data = b''
-                binaries.insert(int(elem.attrib['ID']), data)
+                binaries.append(data)
 
         return binaries
 
-- 
2.43.0


From 36e5a887a579e6abd04b7fc0e6b896a1c30c5366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:57 +0000
Subject: [PATCH 21/21] fix: find_attachments without criteria does not stop at
 the binaries of a KDBX3 database

---
 pykeepass/pykeepass.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykeepass/pykeepass.py b/pykeepass/pykeepass.py
index 6bdb187..6e913bf 100644
--- a/pykeepass/pykeepass.py
+++ b/pykeepass/pykeepass.py
@@ -760,7 +760,8 @@ class PyKeePass:
                 `False`).
         """
 
-        prefix = '//Binary' if recursive else '/Binary'
+        # only attachments have a key, KDBX3 stores the binaries themselves as /KeePassFile/Meta/Binaries/Binary
+        prefix = '//Binary[Key]' if recursive else '/Binary'
         res = self._find(prefix, attachment_xp, path=path, tree=element, **kwargs)
 
         return res
-- 
2.43.0

