"""Planted changes: each breaks one property while the existing tests still pass."""
BUGS = []
PRE = '''import os, sys, shutil, tempfile, io
from datetime import datetime, timedelta, timezone
import pykeepass
from pykeepass import PyKeePass, create_database
assert os.path.realpath(pykeepass.__file__).startswith(os.path.realpath(os.getcwd())), pykeepass.__file__
TMP = tempfile.mkdtemp(prefix="demo_")
import atexit; atexit.register(shutil.rmtree, TMP, True)
T = os.path.join(os.getcwd(), "tests")


def db(v=4):
    """A scratch copy of a test database, opened."""
    p = os.path.join(TMP, "test%d.kdbx" % v)
    shutil.copy(os.path.join(T, "test%d.kdbx" % v), p)
    return PyKeePass(p, "password", os.path.join(T, "test%d.key" % v))


def check(cond, msg):
    if not cond:
        print("PROPERTY BROKEN: " + msg)
        sys.exit(1)


'''


def bug(id, prop, needs, breaks, edits, demo):
    BUGS.append({"id": id, "property": prop, "needs": needs, "breaks": breaks, "edits": edits, "demo": demo})


PK, EN, GR, BE, AT, XP, CO = "pykeepass.py", "entry.py", "group.py", "baseelement.py", "attachment.py", "xpath.py", "kdbx_parsing/common.py"
K3, K4, KX, DP = "kdbx_parsing/kdbx3.py", "kdbx_parsing/kdbx4.py", "kdbx_parsing/kdbx.py", "deprecated.py"

bug("c18-shared-history", "C18", "an entry with an existing history is saved to history again",
    "a further history save inserts the new item before the older ones instead of after them",
    [(EN, "            self._element.find('History').append(archive)", "            self._element.find('History').insert(0, archive)")],
    '''
kp = db()
e = kp.add_entry(kp.root_group, "hist", "u", "p")
for i in range(3):
    e.username = "u%d" % i
    e.save_history()
check([h.username for h in e.history] == ["u0", "u1", "u2"], "history order %r" % [h.username for h in e.history])
''')

bug("c21-decrement-first", "C21", "several attachments in one database and a deleted binary below the first of them in a history item",
    "references to later binaries are lowered only outside history",
    [(PK, "            '//Binary/Value[@Ref > \"{}\"]/..'.format(id),", "            '//Binary[not(ancestor::History)]/Value[@Ref > \"{}\"]/..'.format(id),")],
    '''
for v in (3, 4):
    kp = db(v)
    a = kp.add_binary(b"first"); b = kp.add_binary(b"second")
    e = kp.add_entry(kp.root_group, "att", "u", "p")
    e.add_attachment(b, "two.txt")
    e.save_history()
    kp.delete_binary(a)
    check(e.attachments[0].data == b"second", "live attachment lost its data")
    h = kp.find_attachments(element=e.history[0], filename="two.txt", history=True, recursive=False)
    check(h and h[0].id == e.attachments[0].id, "the history item's attachment refers to another binary")
''')

bug("c19-bin-not-registered", "C19", "a database whose recycle bin has been emptied of its registration, trashing twice",
    "when the bin is created the group's own name is looked up and re-used without being registered",
    [(PK, "        group = self.add_group( self.root_group, **kwargs)\n        elem = self._xpath('/KeePassFile/Meta/RecycleBinUUID', first=True)",
          "        group = self.find_groups(name=kwargs['group_name'], first=True) or self.add_group( self.root_group, **kwargs)\n        elem = self._xpath('/KeePassFile/Meta/RecycleBinUUID', first=True)")],
    '''
p = os.path.join(TMP, "new.kdbx")
kp = create_database(p, "x")
g = kp.add_group(kp.root_group, "Archive")
user = kp.add_group(g, "Recycle Bin")
e = kp.add_entry(kp.root_group, "t", "u", "p")
kp.trash_entry(e)
check(e.group.uuid != user.uuid and kp.recyclebin_group.group == kp.root_group, "entry went into the user's own group")
''')

bug("c14-autotype-window", "C14", "an entry's autotype sequence or window is assigned",
    "the autotype window setter stores the value in the association's keystroke sequence when the window is still empty",
    [(EN, "        self._element.find('AutoType/Association/Window').text = value",
          "        assoc = self._element.find('AutoType/Association')\n        assoc.find('Window').text = value\n        if value is None:\n            assoc.find('KeystrokeSequence').text = value")],
    '''
kp = db()
e = kp.add_entry(kp.root_group, "at", "u", "p")
k = e._element.find("AutoType/Association/KeystrokeSequence")
k.text = "{USERNAME}"
e.autotype_window = None
check(k.text == "{USERNAME}", "clearing the window also cleared the keystroke sequence")
''')

bug("c20-duplicate-scope", "C20", "an entry of the same title and user name in a subgroup of the destination",
    "an addition is refused because of an entry deeper below the destination group",
    [(PK, "            first=True,\n            group=destination_group,\n            recursive=False\n        )",
          "            first=True,\n            group=destination_group,\n            recursive=not destination_group.is_root_group\n        )")],
    '''
kp = db()
g = kp.add_group(kp.root_group, "g1")
s = kp.add_group(g, "g2")
kp.add_entry(s, "same", "user", "p")
try:
    kp.add_entry(g, "same", "user", "p")
except Exception as ex:
    check(False, "refused although no such entry is directly in the group: %s" % ex)
''')


