"""More planted changes, written from the property texts."""
from bugs import bug, PK, EN, GR, BE, AT, XP, CO, K3, K4, KX, DP

bug("c01-narrow-cleanup", "C01", "a save that fails with an error other than OSError or ValueError while the temporary file is being written",
    "the half-written temporary file stays behind when serialising fails with another kind of exception",
    [(PK, "            except Exception as e:\n                filename_tmp", "            except (OSError, ValueError) as e:\n                filename_tmp")],
    """
kp = db()
old = open(kp.filename, "rb").read()
kp._password = 12345                     # cannot be encoded
try:
    kp.save()
    check(False, "save() with an unusable password succeeded")
except AttributeError:
    pass
check(open(kp.filename, "rb").read() == old, "destination changed")
check(sorted(os.listdir(TMP)) == ["test4.kdbx"], "left behind: %r" % os.listdir(TMP))
""")

bug("c01-copy-in-place", "C01", "a crash, a full disk or a reader while the destination is being replaced",
    "the destination is overwritten in place by a copy instead of being replaced in one step",
    [(PK, "            shutil.move(filename_tmp, filename)", "            shutil.copyfile(filename_tmp, filename)\n            os.remove(filename_tmp)")],
    """
kp = db()
dest = os.path.realpath(kp.filename)
link = os.path.join(TMP, "reader")
os.link(dest, link)                      # another name for the old file, as an open handle would be
old = open(link, "rb").read()
kp.database_name = "other"
kp.save()
check(open(link, "rb").read() == old, "the old file was overwritten in place, not replaced")
PyKeePass(dest, "password", os.path.join(T, "test4.key"))
""")

bug("c02-last-block", "C02", "a KDBX4 file whose last block's authentication code is damaged, or which was cut and closed with a forged end block",
    "the authentication code of the terminating empty block is not verified",
    [(K4, "        Checksum(\n            Bytes(32),\n            compute_payload_block_hash,\n            this,\n            # exception=PayloadChecksumError\n        )",
      "        IfThenElse(\n            this.block_data,\n            Checksum(\n                Bytes(32),\n                compute_payload_block_hash,\n                this,\n                # exception=PayloadChecksumError\n            ),\n            Rebuild(Bytes(32), compute_payload_block_hash)\n        )"),
     (K4, "    Prefixed,\n", "    Prefixed,\n    Rebuild,\n")],
    """
kp = db()
data = bytearray(open(kp.filename, "rb").read())
data[-36] ^= 1                            # first byte of the end block's code
p = os.path.join(TMP, "bad.kdbx")
open(p, "wb").write(data)
from pykeepass.exceptions import PayloadChecksumError
try:
    PyKeePass(p, "password", os.path.join(T, "test4.key"))
    check(False, "a forged end block was accepted")
except PayloadChecksumError:
    pass
""")

bug("c03-late-index", "C03", "a KDBX3 payload of more than two blocks in which a later block has a wrong index",
    "from the third block on the stored index is taken over instead of being compared",
    [(K3, "    \"block_index\" / Checksum(\n        Int32ul,\n        lambda this: this._index,\n        this\n    ),",
          "    \"block_index\" / IfThenElse(\n        this._index < 2,\n        Checksum(\n            Int32ul,\n            lambda this: this._index,\n            this\n        ),\n        Rebuild(Int32ul, lambda this: this._index)\n    ),"),
     (K3, "    Prefixed,\n", "    Prefixed,\n    Rebuild,\n")],
    """
import hashlib, struct
from pykeepass.kdbx_parsing import kdbx3
def block(i, d):
    return struct.pack("<I", i) + (hashlib.sha256(d).digest() if d else b"\\0" * 32) + struct.pack("<I", len(d)) + d
kdbx3.PayloadBlocks.parse(block(0, b"a") + block(1, b"b") + block(2, b"c") + block(3, b""))
try:
    kdbx3.PayloadBlocks.parse(block(0, b"a") + block(1, b"b") + block(7, b"c") + block(3, b""))
except Exception as ex:
    pass
else:
    check(False, "a block with a wrong index was accepted")
""")

bug("c04-header-hash", "C04", "a KDBX4 file whose stored header hash is wrong",
    "a wrong header hash is reported as wrong credentials",
    [(PK, "            elif e.path == '(parsing) -> body -> sha256':\n                raise HeaderChecksumError(\"Corrupted database\")",
          "            elif e.path == '(parsing) -> body -> sha256':\n                raise CredentialsError(\"Corrupted database\")")],
    """
from pykeepass.exceptions import HeaderChecksumError
kp = db()
hd = kp.kdbx.header.data
data = bytearray(open(kp.filename, "rb").read())
data[len(hd) + 3] ^= 1                    # the stored header hash
p = os.path.join(TMP, "bad.kdbx")
open(p, "wb").write(data)
try:
    PyKeePass(p, "password", os.path.join(T, "test4.key"))
except HeaderChecksumError:
    pass
except Exception as ex:
    check(False, "raised %r" % ex)
else:
    check(False, "opened")
""")

bug("c05-reload-clears", "C05", "a reload that fails because the file became unreadable",
    "reload() drops the open document before reading",
    [(PK, "        self.read(self.filename, self.password, self.keyfile)", "        self.kdbx = None\n        self.read(self.filename, self.password, self.keyfile)")],
    """
kp = db()
n = len(kp.entries)
os.rename(kp.filename, kp.filename + ".away")
try:
    kp.reload()
    check(False, "reload of a missing file succeeded")
except FileNotFoundError:
    pass
try:
    m = len(kp.entries)
except Exception as ex:
    check(False, "contents lost after a failed reload: %r" % ex)
check(m == n, "contents changed")
""")

bug("c07-keyfile-strip", "C07", "a plain key file whose content ends in a line break",
    "trailing line breaks of a key file are dropped before hashing",
    [(CO, "            with open(keyfile, 'rb') as f:\n                keyfile_bytes = f.read()", "            with open(keyfile, 'rb') as f:\n                keyfile_bytes = f.read().rstrip(b'\\r\\n')")],
    """
import hashlib
from pykeepass.kdbx_parsing.common import compute_key_composite
p = os.path.join(TMP, "k")
open(p, "wb").write(b"some words\\n")
want = hashlib.sha256(hashlib.sha256(b"some words\\n").digest()).digest()
check(compute_key_composite(keyfile=p) == want, "the key file's content was modified")
""")

bug("c08-short-tail", "C08", "a payload a few bytes longer than one block",
    "a last piece of up to 16 bytes behind a full block is not written",
    [(CO, "        while i < len(payload_data):\n", "        while i + (i > 0) * 16 < len(payload_data):\n")],
    """
from pykeepass.kdbx_parsing.common import Concatenated
from construct import GreedyBytes
c = Concatenated(GreedyBytes)
for n in (0, 5, 2**20, 2**20 + 1, 2**20 + 16, 2**21 + 9):
    d = os.urandom(n)
    check(c._decode(c._encode(d, None, ""), None, "") == d, "%d bytes are not restored" % n)
""")

bug("c09-signed-type", "C09", "a KDF parameter stored with the signed 32-bit value type",
    "the signed 32-bit item type of variant dictionaries is read as unsigned",
    [(K4, "             0x0C: Int32sl,", "             0x0C: Int32ul,")],
    """
from pykeepass.kdbx_parsing.kdbx4 import VariantDictionary
raw = b"\\x00\\x01" + b"\\x0c" + (1).to_bytes(4, "little") + b"x" + (4).to_bytes(4, "little") + (-5).to_bytes(4, "little", signed=True) + b"\\x00"
check(VariantDictionary.parse(raw).dict["x"].value == -5, "signed value read as unsigned")
""")

bug("c10-long-values", "C10", "a protected value of more than 4096 characters",
    "long values are left out when protected values are encrypted",
    [(CO, "        for elem in tree_copy.xpath(self.protected_xpath):\n", "        for elem in tree_copy.xpath(self.protected_xpath + '[string-length(.) < 4096]'):\n")],
    """
kp = db()
e = kp.add_entry(kp.root_group, "long", "u", "p")
e.password = "x" * 5000
kp.add_entry(kp.root_group, "after", "u", "secret")
out = os.path.join(TMP, "o.kdbx")
kp.save(out)
k2 = PyKeePass(out, "password", os.path.join(T, "test4.key"))
check(k2.find_entries(title="long", first=True).password == "x" * 5000, "a long protected value is lost")
check(k2.find_entries(title="after", first=True).password == "secret", "a later protected value is lost")
""")

bug("c11-empty-mark", "C11", "changing the value of an existing protected field that is currently empty",
    "an existing mark is only kept when the field has a value",
    [(EN, "            if protected_field is not None:\n                protected_str", "            if protected_field is not None and protected_field.text:\n                protected_str")],
    """
kp = db()
e = kp.add_entry(kp.root_group, "m", "u", "p")
e.set_custom_property("pin", "", protect=True)
e.set_custom_property("pin", "1234", protect=None)
check(e.is_custom_property_protected("pin"), "the mark of an empty protected field was dropped")
""")

bug("c12-encode-in-place", "C12", "saving a database with very many protected values and going on using it",
    "for large documents protected values are encrypted in the open document itself",
    [(CO, "        tree_copy = deepcopy(tree)\n", "        tree_copy = deepcopy(tree) if len(tree.xpath(self.protected_xpath)) < 1000 else tree\n")],
    """
kp = db()
g = kp.add_group(kp.root_group, "many")
from copy import deepcopy
e = kp.add_entry(g, "e0", "u", "pw0")
for i in range(1, 1001):
    g._element.append(deepcopy(e._element))
kp.save(os.path.join(TMP, "o.kdbx"))
check(e.password == "pw0", "saving changed the open document: %r" % e.password)
""")

bug("c13-root-cache", "C13", "reloading the database after the root group was read",
    "the root group is remembered across a reload",
    [(PK, "        return self.find_groups(path='', first=True)", "        if getattr(self, '_root', None) is None:\n            self._root = self.find_groups(path='', first=True)\n        return self._root")],
    """
kp = db()
kp.root_group
kp2 = PyKeePass(kp.filename, "password", os.path.join(T, "test4.key"))
kp2.root_group.name = "renamed"
kp2.save()
kp.reload()
check(kp.root_group.name == "renamed", "an old root group is returned after reload")
""")

bug("c15-notes-url", "C15", "a regular expression search for notes",
    "the regular expression search for notes also looks at the URL",
    [(XP, "        'notes': '/String/Key[text()=\"Notes\"]/../Value[re:test(text(), \"{}\", \"{flags}\")]/../..',\n        'uuid'", "        'notes': '/String[Key=\"Notes\" or Key=\"URL\"]/Value[re:test(text(), \"{}\", \"{flags}\")]/../..',\n        'uuid'")],
    """
kp = db()
a = kp.add_entry(kp.root_group, "a", "u", "p", url="needle", notes="hay")
b = kp.add_entry(kp.root_group, "b", "u", "p", url="hay", notes="needle")
check([x.title for x in kp.find_entries(notes="need.*", regex=True)] == ["b"], "an entry with another field matching was returned")
""")

bug("c22-rounding", "C22", "a time with a fraction of more than half a second in KDBX4",
    "times are rounded up to the next second when written in KDBX4",
    [(PK, "            diff_seconds = int(\n", "            diff_seconds = round(\n")],
    """
kp = db()
e = kp.add_entry(kp.root_group, "t", "u", "p")
e.mtime = datetime(2021, 5, 6, 7, 8, 9, 700000, tzinfo=timezone.utc)
check(e.mtime == datetime(2021, 5, 6, 7, 8, 9, tzinfo=timezone.utc), "another second is read back: %s" % e.mtime)
""")

bug("c23-keyfile-date", "C23", "setting the key file to the same path, whose content was replaced",
    "the credential change time is only recorded when the key file's name differs",
    [(PK, "        self._keyfile = keyfile\n        self.credchange_date = datetime.now(timezone.utc)", "        changed = keyfile != self._keyfile\n        self._keyfile = keyfile\n        if changed:\n            self.credchange_date = datetime.now(timezone.utc)")],
    """
kp = db()
kp.credchange_date = datetime(2001, 1, 1, tzinfo=timezone.utc)
kp.keyfile = kp.keyfile                 # same path, new content
check(kp.credchange_date.year > 2001, "setting the key file did not record the change time")
""")

bug("c24-cred-message", "C24", "opening with wrong credentials and a key file",
    "the error for wrong credentials shows the password that was tried",
    [(PK, "                raise CredentialsError(\"Invalid credentials\")", "                raise CredentialsError(\"Invalid credentials\", dict(password=password, keyfile=keyfile) if keyfile else filename)")],
    """
kp = db()
from pykeepass.exceptions import CredentialsError
try:
    PyKeePass(kp.filename, "hunter2-secret", os.path.join(T, "test4.key"))
except CredentialsError as ex:
    check("hunter2-secret" not in str(ex), "the message shows the password")
""")

bug("c24-create-log", "C24", "debug logging while entries are added",
    "the debug log of a new entry shows all its arguments",
    [(PK, "            logger.debug('Creating a new entry')", "            logger.debug('Creating a new entry %s', {k: v for k, v in locals().items() if v and k not in ('self', 'entries')})")],
    """
import logging
kp = db()
recs = []
class H(logging.Handler):
    def emit(self, r): recs.append(r.getMessage())
lg = logging.getLogger("pykeepass.pykeepass"); lg.addHandler(H()); lg.setLevel(logging.DEBUG)
kp.add_entry(kp.root_group, "t", "u", "hunter2-secret")
check(not any("hunter2-secret" in r for r in recs), "a log record shows the entry's password")
""")

bug("c25-ref-notes", "C25", "a reference that looks an entry up by its notes",
    "references by notes compare the URL",
    [(PK, "            'N': 'notes',\n            'I': 'uuid',", "            'N': 'url' if '@N:' in value else 'notes',\n            'I': 'uuid',")],
    """
kp = db()
e = kp.add_entry(kp.root_group, "t", "u", "p", url="http://x", notes="unique note")
check(kp.deref("{REF:U@N:unique note}") == "u", "reference by notes: %r" % kp.deref("{REF:U@N:unique note}"))
""")

bug("c26-case", "C26", "a custom property whose name equals a built-in field in another letter case",
    "custom properties named like a built-in field in another case are missing from the listing",
    [(EN, "            return [x for x in results if x not in reserved_keys]", "            return [x for x in results if x is None or x.lower() not in [k.lower() for k in reserved_keys]]")],
    """
kp = db()
e = kp.add_entry(kp.root_group, "c", "u", "p")
e.set_custom_property("title", "v")
check(e.custom_properties == {"title": "v"}, "listing: %r" % e.custom_properties)
""")

bug("c28-empty-document", "C28", "opening a KDBX4 database with decrypt=False and then reading contents",
    "content access without decryption yields an empty document",
    [(PK, "        return self.payload.xml\n", "        if self.kdbx.body.payload is None and self.version >= (4, 0):\n            return etree.ElementTree(etree.Element('KeePassFile'))\n        return self.payload.xml\n")],
    """
kp = PyKeePass(os.path.join(T, "test4.kdbx"), decrypt=False)
try:
    kp.entries
    check(False, "contents are readable although nothing was decrypted")
except ValueError:
    pass
""")

bug("c29-template-password", "C29", "creating a database with a key file only",
    "the template's password stays in force when only a key file is given",
    [(PK, "    keepass_instance.password = password\n", "    if password is not None or keyfile is None:\n        keepass_instance.password = password\n")],
    """
k = os.path.join(TMP, "k"); open(k, "wb").write(os.urandom(32))
p = os.path.join(TMP, "n.kdbx")
create_database(p, keyfile=k)
from pykeepass.exceptions import CredentialsError
try:
    PyKeePass(p, keyfile=k)
except CredentialsError:
    check(False, "cannot be opened with the key file alone")
""")

bug("c30-tags-cleared", "C30", "assigning tags that cannot be stored",
    "the old tags are removed before the new ones turn out to be invalid",
    [(EN, "        return self._set_subelement_text('Tags', v)", "        old = self._element.find('Tags')\n        if old is not None:\n            self._element.remove(old)\n        return self._set_subelement_text('Tags', v)")],
    """
kp = db()
e = kp.add_entry(kp.root_group, "t", "u", "p", tags=["a", "b"])
try:
    e.tags = ["x", "bad\\x00"]
    check(False, "a control character was stored")
except ValueError:
    pass
check(e.tags == ["a", "b"], "old tags lost: %r" % e.tags)
""")

bug("c31-entities", "C31", "a database whose XML refers to an external entity",
    "the XML parser resolves entities, including external files",
    [(CO, "        parser = etree.XMLParser(remove_blank_text=True)", "        parser = etree.XMLParser(remove_blank_text=True, resolve_entities=True)")],
    """
secret = os.path.join(TMP, "secret.txt"); open(secret, "w").write("LOCAL FILE")
from pykeepass.kdbx_parsing.common import XML
from construct import GreedyBytes
doc = '<!DOCTYPE a [<!ENTITY x SYSTEM "file://%s">]><a>&x;</a>' % secret
try:
    t = XML(GreedyBytes).parse(doc.encode())
    got = "".join(t.getroot().itertext())
except Exception:
    got = ""
check("LOCAL FILE" not in got, "a local file was read into the document")
""")

bug("c32-url-history", "C32", "find_entries_by_url with history and first",
    "find_entries_by_url ignores the history option when a single result is wanted",
    [(DP, "        url=url,\n        regex=regex,\n        flags=flags,\n        group=group,\n        history=history,", "        url=url,\n        regex=regex,\n        flags=flags,\n        group=group,\n        history=history and not first,")],
    """
kp = db()
e = kp.add_entry(kp.root_group, "h", "u", "p", url="old-url")
e.save_history(); e.url = "new-url"
check(kp.find_entries_by_url("old-url", history=True, first=True) is not None, "history item not found")
""")

bug("c33-recommended", "C33", "a database whose credentials are older than both intervals",
    "a change is recommended only while it is not yet required",
    [(PK, "        return (now_date - change_date).days > self.credchange_recommended_days", "        return (now_date - change_date).days > self.credchange_recommended_days and not self.credchange_required")],
    """
kp = db()
kp.credchange_required_days = 5; kp.credchange_recommended_days = 3
kp.credchange_date = datetime.now(timezone.utc) - timedelta(days=10)
check(kp.credchange_recommended, "no recommendation 10 days after the change with an interval of 3")
""")

bug("c20-reindex-append", "C20", "reindexing an entry in a group that also has subgroups",
    "reordering to the last position puts the entry into the last subgroup",
    [(EN, "        group.insert(new_index+first_index, self._element)", "        if new_index+first_index < len(group):\n            group.insert(new_index+first_index, self._element)\n        else:\n            (group.find('Group') if group.find('Group') is not None else group).append(self._element)")],
    """
kp = db()
g = kp.add_group(kp.root_group, "g")
a = kp.add_entry(g, "a", "u", "p")
sub = kp.add_group(g, "sub")
a.reindex(9)
check(a.group == g, "the entry left its group: %r" % a.group)
""")

bug("c19-empty-removes", "C19", "emptying a group that is nested three levels deep",
    "emptying a nested group also removes the group",
    [(PK, "        while len(group.entries):\n            self.delete_entry(group.entries[0])", "        while len(group.entries):\n            self.delete_entry(group.entries[-1])\n            if not len(group.entries) and len(group.path) > 2:\n                self.delete_group(group)\n                break")],
    """
kp = db()
a = kp.add_group(kp.root_group, "a"); b = kp.add_group(a, "b"); c_ = kp.add_group(b, "c")
kp.add_entry(c_, "e", "u", "p")
kp.empty_group(c_)
check(kp.find_groups(name="c", group=b, first=True) is not None, "emptying removed the group itself")
""")

bug("c18-alias-times", "C18", "changing an entry after it was saved to its history",
    "the history item shares the entry's attachments instead of keeping its own",
    [(EN, "        archive = deepcopy(self._element)", "        archive = deepcopy(self._element)\n        for old, new in zip(self._element.findall('Binary'), archive.findall('Binary')):\n            archive.replace(new, old)")],
    """
kp = db()
e = kp.add_entry(kp.root_group, "h", "u", "p")
e.add_attachment(kp.add_binary(b"data"), "f.txt")
e.save_history()
check(len(e.attachments) == 1, "saving history took the attachment away from the live entry")
""")

bug("c21-id-text", "C21", "a KDBX3 database with ten or more binaries",
    "references are compared as text when later binaries move up",
    [(PK, "            reference.id = reference.id - 1", "            if len(str(reference.id)) == len(str(id)):\n                reference.id = reference.id - 1")],
    """
for v in (3, 4):
    kp = db(v)
    n = len(kp.binaries)
    ids = [kp.add_binary(b"data%d" % i) for i in range(14)]
    e = kp.add_entry(kp.root_group, "att", "u", "p")
    for i, x in enumerate(ids):
        e.add_attachment(x, "f%d" % i)
    kp.delete_binary(ids[0])
    for a in e.attachments:
        i = int(a.filename[1:])
        check(a.data == b"data%d" % i, "attachment %s yields %r" % (a.filename, a.data))
""")

bug("c14-notes-newlines", "C14", "assigning a text with a carriage return to a group's notes",
    "line breaks in group notes are normalised when assigned",
    [(GR, "    def notes(self, value):\n        return self._set_subelement_text('Notes', value)", "    def notes(self, value):\n        return self._set_subelement_text('Notes', '\\n'.join(value.splitlines()))")],
    """
kp = db()
g = kp.add_group(kp.root_group, "g")
g.notes = "two lines\\n"
check(g.notes == "two lines\\n", "another text is read back: %r" % g.notes)
""")

bug("c02-first-half-mebibyte", "C02", "a KDBX4 block of more than half a mebibyte that was changed behind that point",
    "only the first half mebibyte of a block enters its authentication code",
    [(K4, "        this.block_data, hashlib.sha256\n", "        this.block_data[:2**19], hashlib.sha256\n")],
    """
kp = db()
kp.add_binary(os.urandom(3 * 2**20), compressed=False)
kp.save()
data = bytearray(open(kp.filename, "rb").read())
data[900000] ^= 1
open(kp.filename, "wb").write(data)
from pykeepass.exceptions import PayloadChecksumError
try:
    PyKeePass(kp.filename, "password", os.path.join(T, "test4.key"))
    check(False, "the changed block was accepted")
except PayloadChecksumError:
    pass
except Exception as e:
    check(False, "the changed block was decrypted first: %r" % e)
""")

bug("c06-argon-version", "C06", "a KDBX4 database whose header asks for Argon2 version 1.0",
    "Argon2 is always run in version 1.3, whatever the header says",
    [(K4, "            version=kdf_parameters['V'].value\n", "            version=argon2.low_level.ARGON2_VERSION\n")],
    """
import argon2, hashlib
from pykeepass.kdbx_parsing.kdbx4 import compute_transformed, kdf_uuids
from construct import Container as C
P = {"$UUID": C(value=kdf_uuids["argon2"]), "S": C(value=b"s" * 32), "I": C(value=2), "M": C(value=1024 * 64), "P": C(value=2), "V": C(value=16)}
ctx = C(_=C(_=C(password="x", keyfile=None, transformed_key=None), header=C(value=C(dynamic_header=C(kdf_parameters=C(data=C(dict=P)))))))
want = argon2.low_level.hash_secret_raw(secret=hashlib.sha256(hashlib.sha256(b"x").digest()).digest(), salt=b"s" * 32, hash_len=32,
    type=argon2.low_level.Type.D, time_cost=2, memory_cost=64, parallelism=2, version=16)
check(compute_transformed(ctx) == want, "other key than the header's parameters give")
""")

bug("c06-password-nfc", "C06", "a password with decomposed characters",
    "the password is normalised before it is hashed, so other programs derive another key",
    [(CO, "hashlib.sha256(password.encode('utf-8')).digest()", "hashlib.sha256(unicodedata.normalize('NFC', password).encode('utf-8')).digest()"),
     (CO, "import re\n", "import re\nimport unicodedata\n")],
    """
import hashlib
from pykeepass.kdbx_parsing.common import compute_key_composite
pw = "u\\u0308ber"
check(compute_key_composite(password=pw) == hashlib.sha256(hashlib.sha256(pw.encode("utf-8")).digest()).digest(), "another key than the password's")
""")

bug("c17-entries-with-strings", "C17", "an entry without any string field, as other programs may write it",
    "entries without string fields are left out of their group's entries",
    [(GR, "self._element.findall('Entry')]", "self._element.findall('Entry[String]')]")],
    """
kp = db()
g = kp.add_group(kp.root_group, "gh")
e = kp.add_entry(g, "t", "u", "p")
for x in e._element.findall("String"):
    e._element.remove(x)
check(len(g.entries) == 1, "the entry is missing from its group")
""")

bug("c27-location-time", "C27", "a new entry that has an expiry time",
    "the time of the last move of a new element is its expiry time",
    [(BE, "                E.LocationChanged(current_time_str)\n", "                E.LocationChanged(expiry_time_str)\n")],
    """
from datetime import datetime, timedelta, timezone
kp = db()
e = kp.add_entry(kp.root_group, "t", "u", "p", expiry_time=datetime(2050, 1, 1, tzinfo=timezone.utc))
t = e._get_times_property("LocationChanged")
check(abs(t - datetime.now(timezone.utc)) < timedelta(minutes=5), "moved at %s" % t)
""")

bug("c17-path-distinct", "C17", "nested groups that have the same name",
    "a group whose name is already part of the path is left out of the path of an entry",
    [(EN, "            if p.name is not None:  # dont make the root group appear\n", "            if p.name is not None and p.name not in path:\n")],
    """
kp = db()
a = kp.add_group(kp.root_group, "same")
b = kp.add_group(a, "same")
e = kp.add_entry(b, "t", "u", "p")
check(e.path == ["same", "same", "t"], "path is %s" % e.path)
check(kp.find_entries(path=e.path) == e, "the path leads elsewhere")
""")

bug("c06-keyfile-memo", "C06", "a key file whose content changes while the program runs",
    "the composite key is remembered by password and key file name, so the key file's new content is ignored",
    [(CO, "def compute_key_composite(password=None, keyfile=None):\n",
      "@functools.lru_cache(maxsize=32)\ndef compute_key_composite(password=None, keyfile=None, _encoding='utf-8'):\n"),
     (CO, "import codecs\n", "import codecs\nimport functools\n")],
    """
from pykeepass.kdbx_parsing.common import compute_key_composite
kf = os.path.join(TMP, "some.key")
open(kf, "wb").write(b"1" * 32)
one = compute_key_composite(password="x", keyfile=kf)
open(kf, "wb").write(b"2" * 32)
check(compute_key_composite(password="x", keyfile=kf) != one, "the key of the old key file")
""")
