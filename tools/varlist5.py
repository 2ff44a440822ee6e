"""Fifth set: subtle breakages written from the property texts, and a few more rewrites."""
from varlist import R, M, PK, EN, GR, BE, AT, XP, CO, K3, K4, KX, DP, SAVE

_MOVE = "            shutil.move(filename_tmp, filename)\n"
# ------------------------------------------------------------------ C01
M("C01", "f-probe", (PK, "            filename_tmp = Path(filename)", "            with open(filename, 'ab'):\n                pass\n            filename_tmp = Path(filename)"))
M("C01", "f-fallback-direct", (PK, """            except Exception as e:
                filename_tmp.unlink(missing_ok=True)
                raise e
            shutil.move(filename_tmp, filename)
""", """            except PermissionError:
                # read-only directory
                with open(filename, 'r+b') as f:
                    KDBX.build_stream(
                        self.kdbx, f, password=self.password, keyfile=self.keyfile,
                        transformed_key=transformed_key, decrypt=True
                    )
                return
            except Exception as e:
                filename_tmp.unlink(missing_ok=True)
                raise e
            shutil.move(filename_tmp, filename)
"""))
M("C01", "f-preallocate", (PK, "            try:\n                KDBX.build_file(\n                    self.kdbx,\n                    filename_tmp,", "            if Path(filename).exists():\n                Path(filename).replace(filename_tmp)\n            try:\n                KDBX.build_file(\n                    self.kdbx,\n                    filename_tmp,"))
# ------------------------------------------------------------------ C06 / C07
M("C06", "f-password-nul", (CO, "password.encode('utf-8')", "password.rstrip('\\0').encode('utf-8')"))
M("C06", "f-password-255", (CO, "password.encode('utf-8')", "password[:255].encode('utf-8')"))
M("C06", "f-rounds-32bit", (K4, "            kdf_parameters['R'].value,\n", "            kdf_parameters['R'].value & 0xffffffff,\n"))
M("C06", "f-salt-32", (K4, "salt=kdf_parameters['S'].value,", "salt=kdf_parameters['S'].value[:32],"))
M("C06", "f-mem-round", (K4, "kdf_parameters['M'].value // 1024", "round(kdf_parameters['M'].value / 1024)"))
M("C07", "f-bom", (CO, "        # try to read XML keyfile\n", "        if keyfile_bytes.startswith(codecs.BOM_UTF8):\n            keyfile_bytes = keyfile_bytes[3:]\n        # try to read XML keyfile\n"))
M("C07", "f-b64-validate", (CO, "base64.b64decode(data_element.text)", "base64.b64decode(data_element.text)[:32]"))
M("C07", "f-version-one", (CO, "version.startswith('1.0')", "version in ('1.0', '1.00')"))
M("C07", "f-hash-upper", (CO, """                hash = bytes.fromhex(data_element.attrib['Hash'])
                hash_computed = hashlib.sha256(keyfile_composite).digest()[:4]
""", """                hash = data_element.attrib['Hash']
                hash_computed = hashlib.sha256(keyfile_composite).hexdigest()[:8].upper()
"""))
# ------------------------------------------------------------------ C08 / C10 / C11
M("C08", "f-decompress-obj", (CO, "return zlib.decompress(data, 16 + 15)", "return zlib.decompressobj(16 + 15).decompress(data, 2**27)"))
M("C08", "f-join-upto-empty", (CO, "        return b''.join([block.block_data for block in blocks])", "        return b''.join([block.block_data for block in blocks[:2**10]])"))
M("C10", "f-meta-skip", (CO, "'//Value[@Protected=\\'True\\']'", "'/KeePassFile/Root//Value[@Protected=\\'True\\']'"))
M("C10", "f-long-skip", (CO, "                elem.text = base64.b64encode(\n", "                if len(elem.text) > 2**20:\n                    continue\n                elem.text = base64.b64encode(\n"))
M("C10", "f-decode-empty", (CO, "                    elem.text = result\n", "                    elem.text = result or None\n                    if not result:\n                        del elem.attrib['Protected']\n"))
M("C11", "f-mark-lower", (EN, "            protected_str = str(protected)", "            protected_str = str(protected).lower()"))
M("C11", "f-otp-lookup", (EN, "        if self.otp:\n            return self._set_string_field('otp', value)\n        else:\n            return self._set_string_field('otp', value, True)", "        return self._set_string_field('otp', value, True if not self.password else None)"))
M("C11", "f-hist-mark", (EN, "        archive = deepcopy(self._element)\n", "        archive = deepcopy(self._element)\n        for value in self._element.findall('String/Value'):\n            if not value.text and value.get('Protected'):\n                del value.attrib['Protected']\n"))
M("C11", "f-custom-default", (EN, "def set_custom_property(self, key, value, protect=False)", "def set_custom_property(self, key, value, protect=None)"))
# ------------------------------------------------------------------ C12 / C13
M("C12", "f-attachments-sorted", (AT, "        return int(self._element.find('Value').attrib['Ref'])", "        return int(self._element.find('Value').attrib.setdefault('Ref', '0'))"))
M("C12", "f-str-strip", (EN, "        pathstr = '/'.join('' if p is None else p for p in self.path)\n        return 'Entry", "        path = self.path\n        if path[-1] is None:\n            path[-1] = self.title = ''\n        pathstr = '/'.join('' if p is None else p for p in path)\n        return 'Entry"))
M("C12", "f-recyclebin-clean", (PK, "        return self.find_groups(uuid=recyclebin_uuid, first=True)", "        group = self.find_groups(uuid=recyclebin_uuid, first=True)\n        if group is None:\n            elem.text = base64.b64encode(bytes(16)).decode('utf-8')\n        return group"))
M("C12", "f-save-binaries", (PK, "        if hasattr(filename, \"write\"):\n", "        if self.version >= (4, 0):\n            used = {a.id for a in self.find_attachments(history=True)}\n            while len(self.binaries) - 1 not in used and self.binaries:\n                self.payload.inner_header.binary.pop()\n        if hasattr(filename, \"write\"):\n"))
M("C13", "f-uuid-once", (BE, "        b64_uuid = self._get_subelement_text('UUID')\n        return uuid.UUID(bytes=base64.b64decode(b64_uuid))", "        try:\n            return self._uuid\n        except AttributeError:\n            b64_uuid = self._get_subelement_text('UUID')\n            self._uuid = uuid.UUID(bytes=base64.b64decode(b64_uuid))\n        return self._uuid"))
M("C13", "f-bin-cached", (PK, "        elem = self._xpath('/KeePassFile/Meta/RecycleBinUUID', first=True)\n        recyclebin_uuid = uuid.UUID( bytes = base64.b64decode(elem.text) )\n        return self.find_groups(uuid=recyclebin_uuid, first=True)", "        group = getattr(self, '_recyclebin', None)\n        if group is not None and group._element.getparent() is not None:\n            return group\n        elem = self._xpath('/KeePassFile/Meta/RecycleBinUUID', first=True)\n        recyclebin_uuid = uuid.UUID( bytes = base64.b64decode(elem.text) )\n        self._recyclebin = self.find_groups(uuid=recyclebin_uuid, first=True)\n        return self._recyclebin"))
M("C13", "f-tree-kept", (PK, "        return self.payload.xml\n", "        if not hasattr(self, '_tree'):\n            self._tree = self.payload.xml\n        return self._tree\n"))
# ------------------------------------------------------------------ C14 / C15 / C17
M("C14", "f-tags-strip", (EN, "val.replace(',', ';').split(';') if val else []", "[t.strip() for t in val.replace(',', ';').split(';')] if val else []"))
M("C14", "f-tags-empty", (EN, "val.replace(',', ';').split(';') if val else []", "[t for t in val.replace(',', ';').split(';') if t] if val else []"))
M("C14", "f-icon-group", (GR, "    @property\n    def notes(self):", "    @property\n    def icon(self):\n        return self._get_subelement_text('IconID') or '48'\n\n    @icon.setter\n    def icon(self, value):\n        self._set_subelement_text('IconID', value)\n\n    @property\n    def notes(self):"))
M("C14", "f-dbname-empty", (PK, "        item = self._xpath('/KeePassFile/Meta/DatabaseName', first=True)\n        item.text = str(name)", "        item = self._xpath('/KeePassFile/Meta/DatabaseName', first=True)\n        if name:\n            item.text = str(name)"))
M("C14", "f-atime-on-mtime", (BE, "        self._set_times_property('LastModificationTime', value)", "        self._set_times_property('LastModificationTime', value)\n        if self.atime is not None and self.atime < value:\n            self._set_times_property('LastAccessTime', value)"))
M("C14", "f-otp-legacy", (EN, "        return self._get_string_field('otp')", "        return self._get_string_field('otp') or self._get_string_field('TOTP Seed')"))
M("C15", "f-uuid-le", (PK, "kwargs['uuid'].bytes).decode", "kwargs['uuid'].bytes_le).decode"))
M("C15", "f-tags-first", (PK, "for t in kwargs['tags'])", "for t in kwargs['tags'][:3])"))
M("C15", "f-value-list", (PK, "                if value is not None:\n                    xp +=", "                if value is not None and value != []:\n                    xp +="))
M("C15", "f-enabled-false", (PK, "                if value is not None:\n                    xp +=", "                if value is not None and value is not False:\n                    xp +="))
M("C15", "f-regex-anchored", (PK, "            # build xpath to filter results with", "            if regex and kwargs.get('url'):\n                kwargs['url'] = '^' + kwargs['url']\n            # build xpath to filter results with"))
M("C17", "f-path-skip-empty", (PK, "            group_path = path[:-1]\n", "            group_path = [name for name in path[:-1] if name]\n"))
M("C17", "f-path-case", (PK, "            element = path[-1] if len(path) > 0 else ''", "            element = path[-1].strip() if len(path) > 0 and path[-1] else ''"))
M("C17", "f-path-history", (XP, "        'entry': '/Entry/String/Key[text()=\"Title\"]/../Value[.=\"{}\"]/../..',", "        'entry': '//Entry/String/Key[text()=\"Title\"]/../Value[.=\"{}\"]/../..',"))
M("C17", "f-tree-bin", (PK, "            xp += prefix\n", "            xp += prefix\n            if tree is None and 'Entry' in prefix and kwargs.get('title'):\n                xp = xp.replace('//Entry', '/KeePassFile/Root/Group//Group//Entry')\n"))
# ------------------------------------------------------------------ C18 - C21
M("C18", "f-cap", (EN, "            self._element.find('History').append(archive)\n", "            history = self._element.find('History')\n            history.append(archive)\n            while len(history) > 50:\n                history.remove(history[0])\n"))
M("C18", "f-no-icon", (EN, "        hist = archive.find('History')\n        if hist", "        for empty in archive.xpath('String[not(Value/text())]'):\n            archive.remove(empty)\n        hist = archive.find('History')\n        if hist"))
M("C18", "f-same-mtime", (EN, "            archive.remove(hist)\n            self._element.find('History').append(archive)", "            archive.remove(hist)\n            if self.mtime not in [h.mtime for h in self.history]:\n                self._element.find('History').append(archive)"))
M("C18", "f-delete-last", (EN, "            self._element.find('History').remove(history_entry._element)", "            history = self._element.find('History')\n            history.remove(history_entry._element)\n            if len(history) < 1:\n                self._element.find('AutoType').clear()\n                self._element.remove(history)"))
M("C19", "f-disabled-bin", (PK, "        recyclebin_group = self._create_or_get_recyclebin_group()\n        self.move_entry( entry, recyclebin_group)", "        enabled = self._xpath('/KeePassFile/Meta/RecycleBinEnabled', first=True)\n        if enabled is not None and enabled.text == 'False':\n            return self.delete_entry(entry)\n        recyclebin_group = self._create_or_get_recyclebin_group()\n        self.move_entry( entry, recyclebin_group)"))
M("C19", "f-already-there", (PK, "        recyclebin_group = self._create_or_get_recyclebin_group()\n        self.move_group( group, recyclebin_group)", "        recyclebin_group = self._create_or_get_recyclebin_group()\n        if group.parentgroup == recyclebin_group:\n            return self.delete_group(group)\n        self.move_group( group, recyclebin_group)"))
M("C19", "f-history-trashed", (PK, "        self.move_entry( entry, recyclebin_group)", "        if entry.history:\n            entry.delete_history(all=True)\n        self.move_entry( entry, recyclebin_group)"))
M("C19", "f-empty-bin-self", (PK, "        while len(group.entries):\n            self.delete_entry(group.entries[0])\n", "        while len(group.entries):\n            self.delete_entry(group.entries[0])\n        if group == self.recyclebin_group:\n            self.delete_group(group)\n"))
M("C20", "f-delete-binaries", (PK, "        entry.delete()\n", "        for id in sorted((a.id for a in entry.attachments), reverse=True):\n            self.delete_binary(id)\n        entry.delete()\n"))
M("C20", "f-move-top", (PK, "        destination_group.append(entry)\n\n    def trash_entry", "        if entry.parentgroup != destination_group:\n            entry.delete()\n            entry = Entry(element=deepcopy(entry._element), kp=self)\n        destination_group.append(entry)\n\n    def trash_entry"), (PK, "import base64\n", "import base64\nfrom copy import deepcopy\n"))
M("C20", "f-dup-empty", (PK, "        if entries and not force_creation:", "        if entries and title and not force_creation:"))
M("C20", "f-dup-case", (PK, "        if entries and not force_creation:", "        if entries is not None and entries.password == password and not force_creation:"))
M("C20", "f-append-copy", (GR, "            for e in entries:\n                self._element.append(e._element)", "            for e in list(dict.fromkeys(entries)):\n                self._element.append(e._element)"))
M("C20", "f-reindex-clamp", (EN, "        group.insert(new_index+first_index, self._element)", "        if new_index >= 0:\n            group.insert(new_index+first_index, self._element)"))
M("C21", "f-att-delete-binary", (EN, "        attachment.delete()\n", "        id = attachment.id\n        attachment.delete()\n        if not self._kp.find_attachments(id=id):\n            self._kp.delete_binary(id)\n"))
M("C21", "f-compress-smaller", (PK, "                data = compressor.compress(data)\n                data += compressor.flush()\n", "                packed = compressor.compress(data)\n                packed += compressor.flush()\n                data = min(packed, data, key=len)\n"))
M("C21", "f-add-empty-att", (PK, "                        data = base64.b64decode(elem.text)\n", "                        data = base64.b64decode(elem.text).rstrip(b'\\0')\n"))
M("C21", "f-gt-ref", (PK, "'//Binary/Value[@Ref > \"{}\"]/..'", "'//Entry/Binary[Key/text()]/Value[@Ref > \"{}\"]/..'"))
M("C21", "f-id-gap", (PK, "            binary_id = len(self.binaries)\n", "            binary_id = len(set(self.binaries))\n"))
# ------------------------------------------------------------------ C22 - C25
M("C22", "f-iso-seconds", (PK, "            return value.isoformat()", "            return value.isoformat(timespec='minutes')"))
M("C22", "f-iso-utc", (PK, "            return value.isoformat()", "            return value.replace(tzinfo=None).isoformat() + 'Z'"))
M("C22", "f-seconds", (PK, "                ).total_seconds()\n            )", "                ).total_seconds() + 0.5\n            )"))
M("C22", "f-decode-micro", (PK, "        date = datetime.fromisoformat(text.replace('Z','+00:00'))", "        date = datetime.fromisoformat(text[:19])"))
M("C23", "f-same-password", (PK, "        self._password = password\n        self.credchange_date = datetime.now(timezone.utc)", "        if password == self._password:\n            return\n        self._password = password\n        self.credchange_date = datetime.now(timezone.utc)"))
M("C23", "f-kf-bytes", (PK, "        self._keyfile = keyfile\n        self.credchange_date = datetime.now(timezone.utc)", "        self._keyfile = str(keyfile) if keyfile else None\n        self.credchange_date = datetime.now(timezone.utc)"))
M("C23", "f-stale-tk", (PK, "    @property\n    def transformed_key(self):", "    def _unused(self):\n        pass\n\n    @property\n    def transformed_key(self):"), (PK, "        if not filename:\n            filename = self.filename\n\n        if hasattr(filename, \"write\")", "        if transformed_key is None and self.keyfile is None and not self.password:\n            transformed_key = self.transformed_key\n        if not filename:\n            filename = self.filename\n\n        if hasattr(filename, \"write\")"))
M("C24", "f-warn", (EN, "        if field is not None:\n            self._element.remove(field)\n        self._element.append(new)", "        if field is not None:\n            if value == field.findtext('Value'):\n                warnings.warn('{} is already {}'.format(key, value))\n            self._element.remove(field)\n        self._element.append(new)"), (EN, "from copy import deepcopy\n", "import warnings\nfrom copy import deepcopy\n"))
M("C24", "f-exc-info", (PK, "        # body integrity/verification\n", "        except UnicodeEncodeError as e:\n            raise CredentialsError('Password cannot be encoded: {!r}'.format(e.object))\n\n        # body integrity/verification\n"))
M("C24", "f-deref-error", (PK, "                except ValueError:\n                    return None\n", "                except ValueError:\n                    logger.warning('Malformed reference in %s', value)\n                    return None\n"))
M("C24", "f-repr-custom", (EN, "        return 'Entry: \"{} ({})\"'.format(pathstr, self.username)", "        return 'Entry: \"{} ({})\"'.format(pathstr, self.username or self.url or self.otp)"))
M("C25", "f-attr-order", (PK, "            value = value.replace(ref, wanted_value)\n", "            value = value.replace(ref, wanted_value, 1)\n"))
M("C25", "f-empty-field", (PK, "getattr(ref_entry, wanted_field) or '', parents", "getattr(ref_entry, wanted_field) or ref, parents"))
M("C25", "f-ref-title", (EN, "        return '{{REF:{}@I:{}}}'.format(attribute_to_field[attribute], self.uuid.hex.upper())", "        return '{{REF:{}@I:{}}}'.format(attribute_to_field.get(attribute, 'T'), self.uuid.hex.upper())"))
# ------------------------------------------------------------------ C26 - C34
M("C11", "f-prot-truthy", (EN, "            return field.attrib.get(\"Protected\", \"False\") == \"True\"", "            return bool(field.attrib.get(\"Protected\"))"))
M("C26", "f-set-history", (EN, "        return self._set_string_field(key, value, protect)", "        for old in self.history:\n            if key not in old._get_string_field_keys():\n                old._set_string_field(key, value, protect)\n        return self._set_string_field(key, value, protect)"))
M("C26", "f-listing-none", (EN, "            props[k] = self._get_string_field(k)\n", "            value = self._get_string_field(k)\n            if value is not None:\n                props[k] = value\n"))
M("C27", "f-icon-zero", (BE, "        if icon:\n            self._element.append(E.IconID(icon))", "        if icon and icon in ('0', '1', '2'):\n            self._element.append(E.IconID(icon))"))
M("C27", "f-expires-str", (BE, "E.Expires(str(expires if expires is not None else False))", "E.Expires(str(bool(expiry_time) and expiry_time.tzinfo is not None))"))
M("C27", "f-uuid-reuse", (BE, "uuid.uuid1().bytes", "uuid.uuid5(uuid.NAMESPACE_OID, str(datetime.now(timezone.utc))).bytes"))
M("C27", "f-tags-tuple", (EN, "                    E.Tags(';'.join(tags) if isinstance(tags, list) else tags)", "                    E.Tags(';'.join(sorted(set(tags))) if isinstance(tags, list) else tags)"))
M("C28", "f-empty", (PK, "        if self.kdbx.body.payload is None:\n            raise", "        if 'payload' not in self.kdbx.body:\n            raise"))
M("C29", "f-existing", (PK, "    keepass_instance.save(transformed_key=transformed_key)\n    return", "    keepass_instance.save(transformed_key=transformed_key or (None if password or keyfile else keepass_instance.transformed_key))\n    return"))
M("C20", "f-append-partial", (PK, "            logger.debug('Creating a new entry')\n", "            for old in self.find_entries(title=title, username=username, group=destination_group, recursive=False):\n                old.delete()\n            logger.debug('Creating a new entry')\n"))
M("C30", "f-date-first", (PK, "        mk_time.text = self._encode_time(date)", "        mk_time.text = None\n        mk_time.text = self._encode_time(date)"))
M("C30", "f-uuid-clear", (BE, "        b64_uuid = base64.b64encode(uuid.bytes).decode('utf-8')\n        return", "        self._element.find('UUID').text = ''\n        b64_uuid = base64.b64encode(uuid.bytes).decode('utf-8')\n        return"))
M("C33", "f-expired-none", (BE, "        if self.expires:\n            return (", "        if self.expires and self.expiry_time > self.ctime:\n            return ("))
M("C33", "f-rec-required", (PK, "        if change_date is None or self.credchange_recommended_days == -1:", "        if change_date is None or self.credchange_recommended_days == -1 or self.credchange_required:"))
M("C33", "f-touch-once", (BE, "        self.atime = now\n", "        if self.atime is None or self.atime < now:\n            self.atime = now\n"))
M("C33", "f-neg-days", (PK, "self.credchange_required_days == -1:", "self.credchange_required_days < 1:"))
# ------------------------------------------------------------------ rewrites
R("f-protect-truthy", (CO, "            if elem.text is not None:\n                try:", "            if elem.text:\n                try:"), (CO, "            if elem.text is not None:\n                elem.text = base64", "            if elem.text:\n                elem.text = base64"))
R("f-copy-copy", (EN, "archive = deepcopy(self._element)", "archive = copy(self._element)"), (EN, "from copy import deepcopy\n", "from copy import copy\n"))
R("f-append-extend", (GR, "            for e in entries:\n                self._element.append(e._element)", "            self._element.extend(e._element for e in entries)"))
R("f-expired-and", (BE, """        if self.expires:
            return (
                datetime.now(timezone.utc) >
                self.expiry_time
            )

        return False
""", "        return bool(self.expires) and self.expiry_time < datetime.now(timezone.utc)\n"))
R("f-first-next", (PK, "            res = res[0] if res else None\n", "            res = next(iter(res), None)\n"))
R("f-hex-noparse", (CO, "bytes.fromhex(data_element.text.strip())", "bytes.fromhex(data_element.text)"))

# ------------------------------------------------------------------ second round
M("C01", "g-trunc", (PK, "Path(filename).name + '.tmp')", "Path(filename).name[:8] + '.tmp')"))
M("C01", "g-tmp-own-dir", (PK, "Path(filename).with_name(Path(filename).name + '.tmp')", "Path(self.filename).with_name(Path(filename).name + '.tmp')"))
M("C01", "g-touch-first", (PK, "            filename_tmp = Path(filename)", "            Path(filename).touch()\n            filename_tmp = Path(filename)"))
M("C03", "g-hash-last", (K3, "lambda block_data: hashlib.sha256(block_data).digest(),", "lambda block_data: hashlib.sha256(block_data[:2**20]).digest(),"))
M("C05", "g-forget", (PK, "                raise CredentialsError(\"Invalid credentials\")", "                self._password = self._keyfile = None\n                raise CredentialsError(\"Invalid credentials\")"))
M("C05", "g-unset", (PK, "        try:\n            if hasattr(filename, \"read\"):", "        self.__dict__.pop('kdbx', None)\n        try:\n            if hasattr(filename, \"read\"):"))
M("C06", "g-lru-composite", (CO, "def compute_key_composite(", "@functools.lru_cache(maxsize=8)\ndef compute_key_composite("), (CO, "import codecs\n", "import codecs\nimport functools\n"))
M("C15", "g-string-last", (PK, "                for key, value in (kwargs['string'] or {}).items():\n                    xp += fill(keys_xp[regex]['string'], key, value, flags=flags)\n", "                for key, value in (kwargs['string'] or {}).items():\n                    string_xp = fill(keys_xp[regex]['string'], key, value, flags=flags)\n                if kwargs['string']:\n                    xp += string_xp\n"))
M("C16", "g-newline", (XP, "    value = str(value)\n", "    value = str(value).replace('\\n', ' ')\n"))
M("C16", "g-sequential", (XP, "    return template.format(*values, flags=flags)", "    template = template.replace('{flags}', str(flags))\n    for value in values:\n        template = template.replace('{}', str(value), 1)\n    return template"))
M("C16", "g-backslash", (XP, "    if '\"' not in value:\n        return '\"' + value + '\"'", "    if '\"' not in value or '\\\\\"' in value:\n        return '\"' + value.replace('\\\\\"', \"'\") + '\"'"))
M("C17", "g-nonrec-desc", (PK, "        prefix = '//Entry' if recursive else '/Entry'", "        prefix = '//Entry' if recursive or group is None else '/Entry'"))
M("C18", "g-first-only", (EN, "self._element.find('History').findall('Entry')]", "self._element.find('History').findall('Entry') if x.find('UUID').text == self._element.find('UUID').text]"))
M("C19", "g-root-late", (PK, "        if entry_or_group == self.root_group:\n            return False\n        recyclebin_group = self.recyclebin_group\n        if recyclebin_group is None:\n            return True\n", "        recyclebin_group = self.recyclebin_group\n        if recyclebin_group is None:\n            return True\n        if entry_or_group == self.root_group:\n            return False\n"))
M("C19", "g-empty-bin-first", (PK, "        self.move_group( group, recyclebin_group)", "        if len(recyclebin_group.subgroups) > 100:\n            self.empty_group(recyclebin_group)\n        self.move_group( group, recyclebin_group)"))
M("C20", "g-group-front", (PK, "        \"\"\"Move a group\"\"\"\n        destination_group.append(group)", "        \"\"\"Move a group\"\"\"\n        if destination_group.subgroups and group.name in [g.name for g in destination_group.subgroups]:\n            for child in group.subgroups + group.entries:\n                destination_group.append(child)\n            return group.delete()\n        destination_group.append(group)"))
M("C20", "g-reindex-last", (EN, "        group.insert(new_index+first_index, self._element)", "        group.insert(max(new_index, 0)+first_index, deepcopy(self._element))"))
M("C23", "g-pw-or-none", (PK, "                password=self.password,\n                keyfile=self.keyfile,\n                transformed_key=transformed_key,\n                decrypt=True\n            )\n        else:", "                password=self.password or None,\n                keyfile=self.keyfile,\n                transformed_key=transformed_key,\n                decrypt=True\n            )\n        else:"))
M("C23", "g-days-int", (PK, "        path = '/KeePassFile/Meta/MasterKeyChangeForce'\n        item = self._xpath(path, first=True)\n        item.text = str(days)", "        path = '/KeePassFile/Meta/MasterKeyChangeForce'\n        item = self._xpath(path, first=True)\n        item.text = str(days)\n        self.credchange_date = datetime.now(timezone.utc)"))
M("C27", "g-eq-is", (BE, "            return hash(self) == hash(other)", "            return self._element is other._element"))
M("C27", "g-eq-path", (BE, "            return hash(self) == hash(other)", "            return hash(self) == hash(other) and self._path == other._path"))
M("C27", "g-expiry-default", (BE, "            expiry_time_str = current_time_str\n", "            expiry_time_str = self._kp._encode_time(datetime(2999, 12, 28, tzinfo=timezone.utc))\n"))
M("C29", "g-save-arg", (PK, "    keepass_instance.filename = filename\n", ""), (PK, "    keepass_instance.save(transformed_key=transformed_key)\n", "    keepass_instance.save(filename, transformed_key=transformed_key)\n"))
M("C29", "g-kf-late", (PK, "    keepass_instance.keyfile = keyfile\n\n    keepass_instance.save(transformed_key=transformed_key)\n", "    keepass_instance.save(transformed_key=transformed_key)\n    keepass_instance.keyfile = keyfile\n"))
M("C30", "g-filename-clear", (AT, "        self._element.find('Key').text = filename", "        key = self._element.find('Key')\n        key.clear()\n        key.text = filename"))
M("C30", "g-window-clear", (EN, "        self._element.find('AutoType/Association/Window').text = value", "        window = self._element.find('AutoType/Association/Window')\n        window.text = ''\n        window.text = value"))
M("C30", "g-title-truncate", (EN, "        if protected_str is None:\n            new = E.String(E.Key(key), E.Value(value))\n        else:\n            new =", "        if field is not None:\n            field.find('Value').text = None\n        if protected_str is None:\n            new = E.String(E.Key(key), E.Value(value))\n        else:\n            new ="))
M("C33", "g-touch-mtime", (BE, "        if modify:\n            self.mtime = now", "        if modify:\n            self.mtime = max(self.mtime, now)"))
M("C17", "g-group-path", (GR, "        path = [self.name]\n", "        path = [self.name or '']\n"))
M("C11", "g-protect-int", (EN, "            protected_str = str(protected)", "            protected_str = str(bool(protected) and value is not None and value != '')"))
M("C10", "g-empty-unmarked", (CO, "        for elem in tree_copy.xpath(self.protected_xpath):\n            if elem.text is not None:\n", "        for elem in tree_copy.xpath(self.protected_xpath):\n            if elem.getparent().findtext('Key') == 'Notes':\n                continue\n            if elem.text is not None:\n"))
M("C26", "g-keys-nested", (EN, "[x.find('Key').text for x in self._element.findall('String')]", "[x.find('Key').text for x in self._element.findall('.//String')]"))
R("g-path-in-list", (PK, "            elif e.path == '(parsing) -> body -> sha256':", "            elif e.path.endswith('-> sha256'):"))
R("g-now-local", (BE, "        now = datetime.now(timezone.utc)\n        self.atime = now\n        if modify:\n            self.mtime = now", "        now = datetime.now(tz=timezone.utc)\n        for name in ('atime', 'mtime') if modify else ('atime',):\n            setattr(self, name, now)"))

# ------------------------------------------------------------------ paths, memo tables
_GP = """        p = self.parentgroup
        path = [self.name]
        while p is not None and not p.is_root_group:
            if p.name is not None:  # dont make the root group appear
                path.insert(0, p.name)
            p = p.parentgroup
        return path
"""
_EP = _GP.replace("[self.name]", "[self.title]")
M("C17", "h-path-second", (GR, _GP, _GP.replace("insert(0, p.name)", "insert(-1, p.name)")))
M("C17", "h-entry-second", (EN, _EP, _EP.replace("insert(0, p.name)", "insert(-1, p.name)")))
M("C17", "h-entry-distinct", (EN, _EP, _EP.replace("if p.name is not None:", "if p.name is not None and p.name not in path:")))
M("C17", "h-entry-notitle", (EN, _EP, _EP.replace("[self.title]", "[self.title] if self.title else []")))
M("C17", "h-path-capped", (GR, _GP, _GP.replace("while p is not None and", "while p is not None and len(path) < 3 and")))
R("h-path-rec", (GR, _GP, "        return self.parentgroup.path + [self.name]\n"))
R("h-path-reverse", (GR, _GP, """        path = [self.name]
        p = self.parentgroup
        while True:
            if p is None or p.is_root_group:
                break
            if p.name is not None:
                path.append(p.name)
            p = p.parentgroup
        path.reverse()
        return path
"""))
R("h-entry-path-group", (EN, _EP, """        names = []
        group = self.parentgroup
        while group is not None and not group.is_root_group:
            names.append(group.name)
            group = group.parentgroup
        return [n for n in reversed(names) if n is not None] + [self.title]
"""))
M("C06", "h-memo-dict", (CO, "def compute_key_composite(password=None, keyfile=None):\n", "_composites = {}\n\n\ndef compute_key_composite(password=None, keyfile=None):\n    if (password, keyfile) not in _composites:\n        _composites[password, keyfile] = _compute_key_composite(password, keyfile)\n    return _composites[password, keyfile]\n\n\ndef _compute_key_composite(password=None, keyfile=None):\n"))
M("C05", "h-del", (PK, "        try:\n            if hasattr(filename, \"read\"):", "        if hasattr(self, 'kdbx'):\n            del self.kdbx\n        try:\n            if hasattr(filename, \"read\"):"))
M("C05", "h-vars", (PK, "        try:\n            if hasattr(filename, \"read\"):", "        vars(self).update(kdbx=None)\n        try:\n            if hasattr(filename, \"read\"):"))
M("C01", "h-stem", (PK, "Path(filename).name + '.tmp')", "Path(filename).stem + '.tmp')"))
M("C01", "h-lower", (PK, "Path(filename).name + '.tmp')", "Path(filename).name.lower().replace('.kdbx', '.tmp'))"))
R("h-tmp-prefix", (PK, "Path(filename).name + '.tmp')", "'.' + Path(filename).name + '.tmp')"))

# ------------------------------------------------------------------ third round
M("C02", "i-len-mod", (K4, "        struct.pack('<I', len(this.block_data)) +\n", "        struct.pack('<I', len(this.block_data) & 0xffffff) +\n"))
M("C02", "i-until-short", (K4, "    lambda item, a, b: len(item.block_data) == 0,\n    EncryptedPayloadBlock", "    lambda item, a, b: len(item.block_data) < 2,\n    EncryptedPayloadBlock"))
M("C02", "i-idx-32", (K4, "            struct.pack('<Q', this._index) +\n            hashlib.sha512(", "            struct.pack('<Q', this._index % 2**8) +\n            hashlib.sha512("))
M("C06", "i-mem-round", (K4, "memory_cost=kdf_parameters['M'].value // 1024,", "memory_cost=max(kdf_parameters['M'].value // 1024, 1024),"))
M("C06", "i-tk-truthy", (K4, "    elif kdf_parameters['$UUID'].value in (", "    elif context._._.password is None and context._._.keyfile is None:\n        transformed_key = key_composite\n    elif kdf_parameters['$UUID'].value in ("))
M("C06", "i-threads", (K4, "parallelism=kdf_parameters['P'].value,", "parallelism=min(kdf_parameters['P'].value, 8),"))
M("C11", "i-hist-first", (EN, "            protected_field = self._xpath(fill('String/Key[text()=\"{}\"]/../Value', key), first=True)", "            protected_field = self._xpath(fill('.//String/Key[text()=\"{}\"]/../Value', key), history=True, first=True)") )
M("C14", "i-tags-comma", (EN, "        return val.replace(',', ';').split(';') if val else []", "        return [t for t in val.replace(',', ';').replace(' ', ';').split(';') if t] if val else []"))
M("C14", "i-tags-sorted", (EN, "        v = sep.join(value if isinstance(value, list) else [value])", "        v = sep.join(sorted(set(value), key=value.index) if isinstance(value, list) else [value])"))
M("C14", "i-autotype-bool", (EN, "        if value is not None:\n            enabled.text = str(value)", "        if value:\n            enabled.text = str(value)"))
M("C14", "i-url-ctor", (EN, "                self._element.append(E.String(E.Key('URL'), E.Value(url)))", "                self._element.append(E.String(E.Key('URL'), E.Value(url.rstrip('/'))))"))
M("C18", "i-cap", (EN, "            self._element.find('History').append(archive)", "            if len(self._element.find('History')) < 10:\n                self._element.find('History').append(archive)"))
M("C21", "i-add-dup", (EN, "        element = E.Binary(\n            E.Key(filename),", "        for old in self.attachments:\n            if old.filename == filename:\n                old.delete()\n        element = E.Binary(\n            E.Key(filename),"))
M("C26", "i-strip", (EN, "            return [x for x in results if x not in reserved_keys]", "            return [x for x in results if x and x not in reserved_keys and not x.startswith('KP2A_')]"))
M("C26", "i-lower", (EN, "        assert key not in reserved_keys, '{} is a reserved key'.format(key)\n        return self._set_string_field(key, value, protect)", "        assert key not in reserved_keys, '{} is a reserved key'.format(key)\n        return self._set_string_field(key.strip(), value, protect)"))
M("C25", "i-deref-none", (EN, "        return self._kp.deref(getattr(self, attribute))", "        return self._kp.deref(getattr(self, attribute) or '')"))
M("C11", "i-otp-plain", (EN, "E.String(E.Key('otp'), E.Value(otp, Protected=\"True\"))", "E.String(E.Key('otp'), E.Value(otp, Protected=str(otp.startswith('otpauth:'))))"))
M("C05", "i-kf-early", (PK, "        # only remember these once the database could be read\n        self.filename = filename\n", ""), (PK, "        try:\n            if hasattr(filename, \"read\"):", "        self.filename = filename\n        try:\n            if hasattr(filename, \"read\"):"))
M("C23", "i-reload-pw", (PK, "        self.read(self.filename, self.password, self.keyfile)", "        self.read(self.filename, self.password or None, self.keyfile)"))
M("C31", "i-parse-all", (PK, "        self.filename = filename\n        self._password", "        self.filename = os.path.realpath(filename) if isinstance(filename, str) else filename\n        self._password"))

# ------------------------------------------------------------------ fourth round
M("C21", "j-reuse-free", (PK, "            binary_id = len(self.binaries)\n", "            binary_id = len([b for b in self.binaries if b])\n"))
M("C21", "j-gt-live", (PK, "'//Binary/Value[@Ref > \"{}\"]/..'.format(id)", "'//Binary[not(ancestor::History)]/Value[@Ref > \"{}\"]/..'.format(id)"))
M("C21", "j-flag-len", (PK, "data = b'\\x01' + data if protected else b'\\x00' + data", "data = b'\\x01' + data if protected else (b'\\x00' + data if data else b'')"))
M("C21", "j-raw-flag", (PK, "[a.data[1:] for a in self.payload.inner_header.binary]", "[a.data[1:] if a.data[:1] in (b'\\x00', b'\\x01') else a.data for a in self.payload.inner_header.binary]"))
M("C27", "j-expiry-naive", (PK, "                expires=True if expiry_time else False,\n", "                expires=bool(expiry_time and expiry_time.year > 2000),\n"))
M("C19", "j-bin-any", (PK, "        return self.find_groups(uuid=recyclebin_uuid, first=True)", "        return self.find_groups(uuid=recyclebin_uuid, first=True) or self.find_groups(name='Recycle Bin', first=True)"))
M("C19", "j-bin-rootonly", (PK, "        return self.find_groups(uuid=recyclebin_uuid, first=True)", "        return self.find_groups(uuid=recyclebin_uuid, group=self.root_group, recursive=False, first=True)"))
M("C14", "j-name-none", (PK, "        item = self._xpath('/KeePassFile/Meta/DatabaseName', first=True)\n        item.text = str(name)", "        item = self._xpath('/KeePassFile/Meta/DatabaseName', first=True)\n        item.text = str(name)[:64]"))
M("C12", "j-xml-strip", (PK, "        return etree.tostring(\n            self.tree,", "        etree.strip_tags(self.tree, etree.Comment)\n        return etree.tostring(\n            self.tree,"))
M("C12", "j-xml-indent", (PK, "        return etree.tostring(\n            self.tree,", "        etree.indent(self.tree)\n        return etree.tostring(\n            self.tree,"))
M("C12", "j-cleanup-ns", (PK, "        return etree.tostring(\n            self.tree,", "        for e in self.tree.iter('Notes'):\n            e.tail = None\n        return etree.tostring(\n            self.tree,"))
M("C28", "j-payload-empty", (PK, "        if self.kdbx.body.payload is None:\n            raise ValueError(\"Database is not decrypted\")", "        if not self.kdbx.body.payload:\n            return None"))
M("C28", "j-salt", (PK, "            return self.kdbx.header.value.dynamic_header.transform_seed.data", "            return self.kdbx.header.value.dynamic_header.master_seed.data"))
M("C24", "j-log-entry", (PK, "            logger.debug('Creating a new entry')", "            logger.debug('Creating a new entry %s', dict(title=title, username=username, otp=otp))"))
M("C30", "j-del-refs-first", (PK, "        if id < 0:\n            raise BinaryError('No such binary with id {}'.format(id))\n        try:", "        if id < 0:\n            raise BinaryError('No such binary with id {}'.format(id))\n        for reference in self.find_attachments(id=id, history=True):\n            reference.delete()\n        try:"))
M("C20", "j-move-touch", (PK, "            destination_group (`Group`): group to move to\n        \"\"\"\n        destination_group.append(entry)", "            destination_group (`Group`): group to move to\n        \"\"\"\n        if entry.group is not None and entry.group.uuid == destination_group.uuid:\n            return\n        entry.delete()\n        destination_group.append(entry)"))

# ------------------------------------------------------------------ rewrites near the rules above
R("k-lru-pure", (CO, "def aes_kdf(", "@functools.lru_cache(maxsize=4)\ndef aes_kdf("), (CO, "import codecs\n", "import codecs\nimport functools\n"))
R("k-tmp-uuid", (PK, "Path(filename).with_name(Path(filename).name + '.tmp')", "Path(filename).with_name('{}.{}.tmp'.format(Path(filename).name, uuid.uuid4().hex))"))
R("k-tmp-suffix", (PK, "Path(filename).with_name(Path(filename).name + '.tmp')", "Path(filename).with_suffix(Path(filename).suffix + '.tmp')"))
R("k-tmp-fstr", (PK, "Path(filename).with_name(Path(filename).name + '.tmp')", "Path(filename).parent / f'{Path(filename).name}.tmp'"))
R("k-entry-path-group", (EN, _EP, "        return self.parentgroup.path + [self.title]\n"))
R("k-path-ancestors", (EN, _EP, """        path = [self.title]
        for element in self._element.iterancestors('Group'):
            if element.getparent().tag == 'Root':
                break
            name = element.find('Name')
            if name is not None and name.text is not None:
                path.insert(0, name.text)
        return path
"""))
R("k-path-deque", (EN, _EP, """        path = [self.title]
        group = self.parentgroup
        while group is not None:
            if group.is_root_group:
                break
            name, group = group.name, group.parentgroup
            if name is None:
                continue
            path = [name] + path
        return path
"""))
R("k-quote", (XP, "    if '\"' not in value:\n        return '\"' + value + '\"'", "    if \"'\" not in value:\n        return \"'\" + value + \"'\"\n    if '\"' not in value:\n        return '\"' + value + '\"'"))
R("k-deref-local", (EN, "        return self._kp.deref(getattr(self, attribute))", "        value = getattr(self, attribute)\n        if value is None:\n            return None\n        return self._kp.deref(value)"))
