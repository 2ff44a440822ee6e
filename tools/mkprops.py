"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe, "hook_needed": None}})
PK = "pykeepass/pykeepass.py"; EN = "pykeepass/entry.py"; GR = "pykeepass/group.py"; BE = "pykeepass/baseelement.py"
AT = "pykeepass/attachment.py"; XP = "pykeepass/xpath.py"; CO = "pykeepass/kdbx_parsing/common.py"
K3 = "pykeepass/kdbx_parsing/kdbx3.py"; K4 = "pykeepass/kdbx_parsing/kdbx4.py"; KX = "pykeepass/kdbx_parsing/kdbx.py"; DP = "pykeepass/deprecated.py"

p("C01", "Saving to a path is all-or-nothing",
  "Saving to a path writes the complete new database to a separate temporary file in the destination's directory and only then replaces the destination in one step. If writing the temporary file fails at any point, the original exception reaches the caller, the destination still holds its previous bytes and the temporary file is removed. This holds for every destination name, including one that already carries the temporary file's own suffix.",
  ["inputs", "fault_sequences", "crash_points"], "every destination path, every database content, every point at which serialising can raise or the process can stop",
  "Tests provoke one failure (a missing key file) on one file name; they cannot sample every failure point, every destination name, or a stop between two file operations.",
  [PK], [("write temp, clean up on failure, then move", "PyKeePass.save")], ["PyKeePass.save(path)"],
  [("destination file", "last good database", "PyKeePass.filename or the save argument"), ("temporary file", "new database being built", "PyKeePass.save")])

p("C02", "A tampered KDBX4 file is never accepted",
  "Opening a KDBX4 database for decryption verifies the SHA-256 of the exact header bytes, the header HMAC, and an HMAC for every payload block including the terminating empty one; each block HMAC is keyed by the block's position and covers position, length and data, with keys derived from the header's master seed and the transformed key. No payload byte is decrypted, decompressed or parsed before the check covering it. Saving writes the same values.",
  ["inputs", "configurations"], "every KDBX4 file, every altered, reordered, truncated or duplicated byte range, every credential and cipher",
  "Tests open well-formed files and a few wrong credentials; they contain no tampered KDBX4 file, and a MAC that silently stopped covering some input still verifies on every honest file.",
  [K4, KX, CO], [("header hash and header HMAC checksums", "kdbx4.Body, compute_header_hmac_hash"), ("block HMAC", "kdbx4.EncryptedPayloadBlock, compute_payload_block_hash")],
  ["PyKeePass(...)", "PyKeePass.save"])

p("C03", "KDBX3 payload corruption is detected block by block",
  "Opening a KDBX3 database for decryption checks that the first 32 decrypted bytes equal the header's stream start bytes before anything else is interpreted, and that every payload block carries its own running index and the SHA-256 of its data, the terminating block being empty with an all-zero hash. No block is used without its index and hash having been compared, and saving writes exactly those values.",
  ["inputs", "configurations"], "every KDBX3 file, every corrupted block, every credential and cipher",
  "No test contains a corrupted KDBX3 block and no test database is larger than one block.",
  [K3, CO], [("block index and hash checksums", "kdbx3.PayloadBlock"), ("stream start bytes", "kdbx3.UnpackedPayload cred_check")], ["PyKeePass(...)", "PyKeePass.save"])

p("C04", "Every verification failure raises its documented error",
  "Opening a file without the KeePass signature or with a wrong header hash raises HeaderChecksumError, wrong credentials raise CredentialsError, and a payload block that fails verification raises PayloadChecksumError, for KDBX3 and KDBX4 alike. Any other parsing failure propagates to the caller; no failure is swallowed or turned into a partly loaded database.",
  ["inputs", "configurations"], "every input file and credential combination, both format versions",
  "Tests exercise wrong credentials and one non-database file; HeaderChecksumError for a bad header hash and PayloadChecksumError are never provoked.",
  [PK, K3, K4, KX], [("exception translation by failing field", "PyKeePass.read"), ("names of the checked fields", "kdbx3/kdbx4/kdbx structs")], ["PyKeePass(...)", "PyKeePass.read"])

p("C05", "A failed open or reload leaves the database object unchanged",
  "When reading or reloading a database raises, the already open object keeps its previous file name, password, key file and contents, so a following save still writes the old contents to the old file under the old credentials.",
  ["histories", "fault_sequences"], "every history of reads, reloads and saves on one object with every kind of read failure",
  "No test continues to use an object after a failed read.",
  [PK], [("state is assigned only after parsing succeeded", "PyKeePass.read")], ["PyKeePass.read", "PyKeePass.reload", "PyKeePass.save"],
  [("filename/password/keyfile/contents", "identity of the open database", "PyKeePass attributes")])

p("C06", "Keys derive from exactly the given credentials and header parameters",
  "The master key is SHA-256 of master seed and transformed key; the transformed key is the header-selected KDF (AES-KDF, Argon2d, Argon2id) with the header's own salt, rounds, memory, parallelism and version applied to SHA-256(SHA-256(UTF-8 password) || key file key). An absent password or key file contributes nothing while an empty password contributes its hash, a caller-supplied transformed key replaces only the KDF step, and opening and saving use the same derivation.",
  ["inputs", "configurations"], "every password, key file, precomputed key, KDF and KDF parameter set",
  "Tests use a few fixed databases; parameters that happen to have common values (parallelism, version, rounds) can be hard-wired or dropped without any test noticing.",
  [CO, K3, K4], [("composite key", "compute_key_composite"), ("KDF", "compute_transformed, aes_kdf"), ("master key", "compute_master")], ["PyKeePass(...)", "PyKeePass.transformed_key", "PyKeePass.save"])

p("C07", "Key files are interpreted by the KeePass rules",
  "An XML key file of version 1.0x yields its base64 data and one of version 2.0x its hex data, which must match the stored hash prefix or be rejected; any other file yields its 32 raw bytes if it is 32 bytes long, its decoded bytes if it is exactly 64 hexadecimal digits, and otherwise the SHA-256 of its whole content. A key file stream is read from its beginning every time, and the file's content is used unmodified.",
  ["inputs", "histories"], "every key file content and length, path or stream, first and repeated use",
  "Tests contain five key files; the boundary lengths, near-hex contents, XML that is not a key file and repeatedly used streams are unbounded.",
  [CO], [("key file parsing", "compute_key_composite")], ["PyKeePass(keyfile=...)"])

p("C08", "Every payload transformation is undone with the parameters that made it",
  "Compression, payload encryption with its key, IV and padding, splitting into blocks, header and inner-header maps and XML serialisation are each written and read by one matching pair: what the writer produces for any content and any length, including several megabytes, is exactly what the reader inverts. Splitting neither drops, repeats nor reorders bytes, and every header item and binary read is written back, the binaries in their order and the end marker last.",
  ["inputs", "configurations"], "every payload content and length, every cipher, compression on or off, both versions",
  "All test payloads fit in one block and use few header items; a mismatch that only shows beyond a block boundary or for one cipher is not reached.",
  [CO, K3, K4], [("adapter encode/decode pairs", "common.Adapter subclasses"), ("cipher and compression selection", "kdbx3/kdbx4 Body")], ["PyKeePass(...)", "PyKeePass.save"])

p("C09", "The bytes on disk follow the KDBX 3.1 and 4 layout",
  "Signatures, version fields, header and inner-header item numbers, length-field widths and byte order, cipher, KDF and stream-cipher identifiers, variant-dictionary value types, block framing and field order are those of the published KDBX formats, for reading and for writing. Every identifier the format defines and this library supports is recognised, and the algorithm names reported to the caller correspond to those identifiers.",
  ["inputs", "configurations"], "every database produced by other KeePass tools and every database this library writes",
  "Identifiers and widths that the sample databases do not use (signed and boolean variant values, stream ids, comments, custom data) can be wrong without any test failing.",
  [KX, K3, K4, CO, PK], [("declarative layout", "kdbx.KDBX, kdbx3.*, kdbx4.*"), ("identifier tables", "common.CipherId, ProtectedStreamId, kdf_uuids")], ["PyKeePass(...)", "PyKeePass.save", "PyKeePass.kdf_algorithm", "PyKeePass.encryption_algorithm"])

p("C10", "Protected values are always encrypted on disk and readable after reopening",
  "On save every value marked protected, wherever it is in the document including history, is encrypted with the inner stream cipher in document order, and on open exactly the same values are decrypted in the same order with the same cipher, key and nonce. Empty values consume no key stream on either side, one undecodable value does not stop the others, and the encryption is done on a copy.",
  ["inputs", "histories"], "every document, every number and position of protected values, every inner stream cipher",
  "A selection or order difference between the two sides shows only for particular documents; test databases have few protected values and never inspect the stored bytes.",
  [CO, K3, K4], [("unprotect/protect adapter", "common.UnprotectedStream"), ("stream ciphers", "Salsa20Stream, ChaCha20Stream")], ["PyKeePass(...)", "PyKeePass.save"])

p("C11", "Passwords and OTP secrets stay marked as protected",
  "A newly created entry marks its password and OTP value as protected, a password or OTP set where none existed is marked as protected, and changing the value of any existing string field keeps that field's protection mark. Only setting a custom property changes a mark: it stores the mark given by its protect argument (not protected by default), and None keeps the existing one.",
  ["inputs", "histories"], "every sequence of field creations and edits",
  "Tests follow one short sequence of edits on one entry.",
  [EN], [("protection flag handling", "Entry.__init__, Entry._set_string_field, password/otp setters")], ["Entry.password", "Entry.otp", "Entry.set_custom_property", "Entry.is_custom_property_protected"])

p("C12", "Reading, searching, exporting and saving never change the database",
  "Attribute reads, searches, reference resolution, XML export, text representation, comparison and saving leave the in-memory document, binaries and header exactly as they were, and none of them except saving and XML export writes to any file. Opening a database opens files only for reading.",
  ["histories", "inputs"], "every sequence of read-only calls on every database",
  "Tests look at the value a getter returns, not at whether something else changed; any of about eighty read-only members could mutate.",
  [PK, EN, GR, BE, AT, CO], [("side-effect-free getters and searches", "all public read members"), ("encoding works on a copy", "common.UnprotectedStream._encode")], ["all read-only public members", "PyKeePass.save"])

p("C13", "Entries, groups and database attributes are live views",
  "Whatever an attribute or search returns is computed from the current document, binaries, header and credentials at the time of the call; no result of an earlier call is cached and returned after the database was edited or reloaded.",
  ["histories"], "every interleaving of reads, edits, deletes and reloads",
  "Staleness needs a read, then a particular edit, then the same read; tests rarely repeat a read after an edit.",
  [PK, EN, GR, BE, AT], [("no memoised state", "all public read members")], ["all read-only public members"])

p("C14", "Each attribute reads and writes its own KeePass field",
  "Assigning an attribute of an entry, group, attachment or database stores the value in the KeePass element of that name, reading the same attribute returns the value from the same element with the inverse conversion, and the constructor arguments of the same name go to the same element. An assignment changes no other field and leaves exactly one element for the field.",
  ["inputs", "histories"], "every attribute, every value, every order of assignments",
  "Time attributes, group notes, icons, autotype and database description are hardly or never set in tests (the test file lists them as missing), and tests do not check that other fields stay the same.",
  [EN, GR, BE, AT, PK], [("paired getters and setters", "Entry, Group, BaseElement, Attachment, PyKeePass properties")], ["public properties with setters"])

p("C15", "Search criteria select exactly the elements whose named field matches",
  "Each search keyword compares the field of that name, and only that field, of the returned element with the given value: equality normally, a regular-expression match of the same field when regex is requested, with the caller's flags (an identifier is always compared for equality). Several criteria are all required, a criterion given as None is ignored, and an unknown keyword is rejected.",
  ["inputs", "configurations"], "every keyword, value, regex flag and combination of criteria, for entries, groups and attachments",
  "Tests search for a handful of values in one fixed database in which a wrong field or a dropped criterion often gives the same result.",
  [XP, PK], [("query templates", "xpath.entry_xp, group_xp, attachment_xp"), ("query building", "PyKeePass._find")], ["PyKeePass.find_entries", "PyKeePass.find_groups", "PyKeePass.find_attachments"])

p("C16", "Search values and field names are data, never query syntax",
  "Any string, whatever quotes, brackets or operators it contains, can be used as a search value, path element, tag, regular expression or custom field name; it is compared literally (or as the given regular expression), never changes the structure of the query and never raises a query syntax error.",
  ["inputs"], "every string value and field name, including single and double quotes together",
  "No test uses a value containing a quote.",
  [PK, XP, EN], [("quoting of values placed in queries", "PyKeePass._find, Entry string field lookups")], ["PyKeePass.find_entries", "PyKeePass.find_groups", "PyKeePass.find_attachments", "PyKeePass.add_entry", "Entry.set_custom_property", "Entry.get_custom_property"])

p("C17", "Searches stay in the requested scope",
  "A search returns history items only when asked to, looks under the given group only, looks at direct children only when recursion is off, resolves a path from the root group element by element, and returns the first match in document order or None when a single result is requested and the complete list otherwise. The returned objects wrap the matched elements and have the class of the searched kind; the entries and subgroups of a group are exactly its direct children. The path of an entry or group lists the names of the groups between the root group and it, from the top down, and then its own title or name.",
  ["inputs", "configurations"], "every combination of group, recursion, path, history and first, on every tree shape",
  "Tests combine few options on one tree; for example history with attachments or non-recursive group searches are never combined.",
  [PK, XP], [("query prefix and scope", "PyKeePass._find"), ("casting and first handling", "PyKeePass.xpath")], ["PyKeePass.find_entries", "PyKeePass.find_groups", "PyKeePass.find_attachments", "PyKeePass.entries", "PyKeePass.groups"])

p("C18", "Saving history keeps an independent copy and nothing else changes",
  "Saving an entry to its history appends, after the existing items, one independent copy of the entry's current fields without a nested history and leaves the live entry's fields untouched; earlier items stay as they are. Deleting one history item removes just that item, deleting all removes the whole history, and the history list reports the items in order.",
  ["histories"], "every sequence of edits, history saves and history deletions",
  "Tests save history at most twice, only for KDBX3, and compare few fields.",
  [EN], [("deep copy without history", "Entry.save_history"), ("history removal", "Entry.delete_history")], ["Entry.save_history", "Entry.delete_history", "Entry.history", "Entry.is_a_history_entry"])

p("C19", "Trashing moves to the recycle bin and never destroys",
  "Trashing an entry or group moves that same element under the recycle bin group; the bin is created under the root group and registered in the database metadata only when none exists. Trashing the root group or the bin itself is refused with UnableToSendToRecycleBin before anything changes, and emptying a group removes all its entries and subgroups but not the group.",
  ["histories", "inputs"], "every tree, every element to trash, with and without an existing bin",
  "Refusal is never tested, and tests trash only freshly created elements directly under the root.",
  [PK], [("eligibility check then move", "PyKeePass.trash_entry, trash_group, _can_be_moved_to_recyclebin"), ("bin creation", "_create_or_get_recyclebin_group")], ["PyKeePass.trash_entry", "PyKeePass.trash_group", "PyKeePass.empty_group", "PyKeePass.recyclebin_group"])

p("C20", "Adding, moving and deleting touch exactly the named element",
  "Adding attaches one new element to the destination group and returns it, an entry whose title and user name both equal those of an entry directly in that group is refused unless forced, and a refused call changes nothing. Moving re-parents the very same element, deleting detaches exactly that element, and reordering an entry keeps it in its group.",
  ["histories", "inputs"], "every sequence of add, move, delete and reorder on every tree",
  "Tests use distinct names and check presence rather than identity or absence of other changes; the duplicate refusal and forced creation are not tested.",
  [PK, GR, BE, EN], [("append/remove on the document", "Group.append, BaseElement.delete, PyKeePass.add_entry/add_group/move_*/delete_*")], ["PyKeePass.add_entry", "PyKeePass.add_group", "PyKeePass.move_entry", "PyKeePass.move_group", "PyKeePass.delete_entry", "PyKeePass.delete_group", "Entry.reindex"])

p("C21", "Attachments always refer to the binary they were given",
  "Adding a binary stores exactly the given bytes and returns the position under which the list of binaries reports them. Deleting a binary removes that one, removes every attachment that refers to it including those in history items, and lowers every greater reference and stored identifier by one, so each remaining attachment still yields its own data; an unknown identifier raises BinaryError and changes nothing. No other operation changes the stored binaries or renumbers references.",
  ["histories", "configurations"], "every sequence of binary and attachment additions and deletions, with history, both format versions",
  "Tests delete one binary without history items and look only at the in-memory number of one reference.",
  [PK, AT, EN], [("positional binaries", "PyKeePass.binaries, add_binary, delete_binary"), ("references", "Attachment.id")], ["PyKeePass.add_binary", "PyKeePass.delete_binary", "PyKeePass.binaries", "Attachment.binary", "Entry.add_attachment"])

p("C22", "Stored times denote the same instant when read back",
  "A time written to any field is read back as the same instant to the second, in UTC, in both format versions: whole seconds since the year 1 as a little-endian 64-bit number in base64 for KDBX4, ISO 8601 for KDBX3. Times with any UTC offset keep their instant, a textual time in a KDBX4 database is still readable, and current times are always taken in UTC.",
  ["inputs", "configurations"], "every instant, every UTC offset, both format versions, every time field",
  "Tests use the current time with three offsets through the constructor only.",
  [PK, BE], [("time encoding", "PyKeePass._encode_time"), ("time decoding", "PyKeePass._decode_time")], ["expiry_time/ctime/atime/mtime of Entry and Group", "PyKeePass.credchange_date"])

p("C23", "Changed master credentials are what the next save uses",
  "Setting the password or key file takes effect on the next save and records the current UTC time as the credential change time, while opening a database does not alter that time. Saving uses the object's current password and key file, or the precomputed key if one is passed, reloading uses the current file, password and key file, and each change-interval attribute reads and writes its own metadata field.",
  ["histories", "configurations"], "every sequence of credential changes, saves and reloads",
  "Tests change both credentials once and look at the change time only through one setter.",
  [PK], [("credential properties", "PyKeePass.password, keyfile, credchange_*"), ("save/reload arguments", "PyKeePass.save, reload")], ["PyKeePass.password", "PyKeePass.keyfile", "PyKeePass.save", "PyKeePass.reload", "PyKeePass.credchange_date"])

p("C24", "Secrets do not leak into logs, messages or representations",
  "Master password, key file content, derived keys and the protected values of entries never reach a log record, a printed line, an exception message or the text representation of an object, and apart from the explicit XML export nothing derived from the decrypted document is written to a file except through the encrypting serialiser.",
  ["inputs", "programs"], "every secret, every call path, every logging level",
  "Tests do not look at log records or messages at all.",
  [PK, EN, GR, AT, CO, K3, K4], [("absence of flows from secrets to sinks", "whole package")], ["logging", "exceptions", "repr/str", "files"])

p("C25", "Field references name and resolve to the intended field",
  "The reference created for an entry's attribute, when resolved, yields the value of that attribute of that entry; every reference in a string is replaced by the wanted field of the entry found by the searched field, text around it is kept, references inside the result are resolved too, an unresolvable reference yields None and a string without references is returned unchanged. A referenced field that is empty, is the identifier (which is written in its hexadecimal text form) or refers back to itself does not make resolution fail or run forever.",
  ["inputs", "histories"], "every reference string over every database, including chains, cycles and missing fields",
  "Tests resolve user name and password references over one clone chain.",
  [PK, EN], [("letter tables", "Entry.ref, PyKeePass.deref"), ("substitution", "PyKeePass.deref")], ["PyKeePass.deref", "Entry.deref", "Entry.ref"])

p("C26", "Custom properties and built-in fields never overlap",
  "The custom-property interface refuses to read, write, query or delete any field that has its own attribute, the listing of custom properties contains exactly the string fields that have none, and setting or deleting one custom property affects only the field with that exact name.",
  ["inputs", "histories"], "every key and value, every set of existing fields",
  "Tests use two or three harmless key names.",
  [EN], [("reserved names", "entry.reserved_keys"), ("custom property methods", "Entry.*custom_propert*")], ["Entry.set_custom_property", "Entry.get_custom_property", "Entry.delete_custom_property", "Entry.custom_properties", "Entry.is_custom_property_protected"])

p("C27", "Every new entry and group is complete and has its own identity",
  "A newly created entry or group carries a freshly generated unique identifier, all seven time fields with the creation moment in UTC, the given expiry, and the fields given by the caller with no value altered. Equality and hashing of entries and groups follow the identifier, and history items are additionally told apart by modification time.",
  ["inputs", "histories"], "every creation with every combination of optional arguments",
  "Tests create a few elements and compare some fields.",
  [BE, EN, GR, PK], [("element construction", "BaseElement.__init__, Entry.__init__, Group.__init__"), ("identity", "__hash__, __eq__")], ["PyKeePass.add_entry", "PyKeePass.add_group", "Entry()", "Group()"])

p("C28", "Opening without decryption exposes header data only",
  "With decryption switched off, opening verifies only what needs no key, reports version, cipher, KDF and salt, and every access to contents raises instead of returning data. With decryption on, no content is reachable before the credentials were verified.",
  ["inputs", "configurations"], "every database, credential and member accessed afterwards",
  "One test opens two files and reads two header attributes.",
  [PK, K3, K4], [("conditional payload", "Body structs"), ("payload guard", "PyKeePass.payload")], ["PyKeePass(decrypt=False)"])

p("C29", "Creating a database uses only the supplied credentials and destination",
  "Creating a database writes it to the given destination under exactly the supplied password, key file or precomputed key; the template's own password never protects the result and the template file is never written. The returned object is bound to that destination and those credentials.",
  ["inputs", "configurations"], "every combination of destination kind, password, key file and precomputed key",
  "Database creation has no test at all.",
  [PK], [("template, rebind, save", "create_database")], ["create_database"])

p("C30", "A rejected edit leaves the old value in place",
  "When assigning or setting a field value fails because the value cannot be stored, the exception reaches the caller and the field still has its previous value and protection mark; the same holds for refused custom-property, history, trash and binary operations.",
  ["inputs", "fault_sequences"], "every field and every value that the document model rejects",
  "No test assigns an unstorable value and then reads the field again.",
  [EN, BE, PK], [("build the new element before removing the old", "Entry._set_string_field, BaseElement._set_subelement_text")], ["string, tag, icon and name setters", "Entry.set_custom_property"])

p("C31", "Opening a database touches nothing but the files it was given",
  "Parsing a database or key file never resolves external entities, loads DTDs or accesses the network, never evaluates file content as code, and opens no file other than the database and key file named by the caller (and the bundled template when creating a database).",
  ["inputs"], "every hostile database and key file content",
  "No test has a hostile file.",
  [CO, PK], [("XML parser options", "common.XML, compute_key_composite"), ("file access", "PyKeePass.read, compute_key_composite")], ["PyKeePass(...)", "create_database"])

p("C32", "The find_*_by_* methods equal the corresponding keyword search",
  "Each convenience search method passes its argument as exactly the criterion in its name, and its regex, flags, group, history and first options unchanged with the same defaults, to the general search of the same kind.",
  ["inputs", "configurations"], "every method and every combination of its arguments",
  "Tests call about half of the methods with few options.",
  [DP, PK], [("forwarding", "deprecated.find_*")], ["PyKeePass.find_entries_by_*", "PyKeePass.find_groups_by_*"])

p("C33", "Expiry and credential-age answers follow the stored times",
  "An element is expired exactly when expiry is switched on and its expiry time lies before the current UTC time; credential change is required or recommended exactly when the interval is not -1 and more whole days than the corresponding interval have passed since the change time. Touching updates the access time, and the modification time only on request, never the creation time.",
  ["inputs", "schedules"], "every stored time, interval and moment of asking",
  "Tests probe one or two days on either side of the limit.",
  [BE, PK], [("expiry", "BaseElement.expired, touch"), ("credential age", "PyKeePass.credchange_required/recommended")], ["Entry.expired", "Group.expired", "PyKeePass.credchange_required", "PyKeePass.credchange_recommended", "touch"])

p("C34", "Every save uses fresh random seeds",
  "Each save encrypts under a master seed, initialisation vector, inner stream key and (KDBX3) stream start bytes that are freshly drawn from a secure random source, so two saves never share a key stream.",
  ["histories"], "every sequence of saves of one database",
  "Tests never compare the headers of two saves.",
  [PK, K3, K4], [("seed handling on build", "PyKeePass.save")], ["PyKeePass.save"])

p("C35", "The built-in Twofish is Twofish",
  "The bundled block cipher computes Twofish encryption and its inverse for every 128, 192 and 256 bit key and every block.",
  ["inputs"], "every key and block",
  "One known-answer pair is asserted at import.",
  ["pykeepass/kdbx_parsing/pytwofish.py", "pykeepass/kdbx_parsing/twofish.py"], [("cipher", "pytwofish.encrypt/decrypt")], ["PyKeePass with a Twofish database"])

p("C36", "Save and reopen preserves every stored character",
  "For every document, saving and reopening yields the same tree, attributes and text, character for character.",
  ["inputs"], "every document",
  "Tests reopen a few fixed databases.",
  [CO, K3, K4, PK], [("serialisation", "common.XML")], ["PyKeePass.save", "PyKeePass(...)"])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P))
