"""Variants of /repo: R = behaviour kept, M = property broken."""
ALL = []
PK, EN, GR, BE, AT, XP, CO = "pykeepass.py", "entry.py", "group.py", "baseelement.py", "attachment.py", "xpath.py", "kdbx_parsing/common.py"
K3, K4, KX, DP = "kdbx_parsing/kdbx3.py", "kdbx_parsing/kdbx4.py", "kdbx_parsing/kdbx.py", "deprecated.py"


def R(name, *edits):
    ALL.append({"name": "r-" + name, "edits": edits})


def M(prop, name, *edits):
    ALL.append({"name": prop.lower() + "-" + name, "prop": prop, "edits": edits})


# ---------------------------------------------------------------- saving
SAVE = """            filename_tmp = Path(filename).with_name(Path(filename).name + '.tmp')
            try:
                KDBX.build_file(
                    self.kdbx,
                    filename_tmp,
                    password=self.password,
                    keyfile=self.keyfile,
                    transformed_key=transformed_key,
                    decrypt=True
                )
            except Exception as e:
                filename_tmp.unlink(missing_ok=True)
                raise e
            shutil.move(filename_tmp, filename)
"""
R("save-finally", (PK, SAVE, """            filename_tmp = Path(str(filename) + '.tmp')
            done = False
            try:
                KDBX.build_file(self.kdbx, filename_tmp, password=self.password, keyfile=self.keyfile,
                                transformed_key=transformed_key, decrypt=True)
                done = True
            finally:
                if not done:
                    filename_tmp.unlink(missing_ok=True)
            os.replace(filename_tmp, filename)
"""))
R("save-else", (PK, SAVE, """            path = Path(filename)
            filename_tmp = path.parent / (path.name + '.tmp')
            try:
                with open(filename_tmp, 'wb') as f:
                    KDBX.build_stream(self.kdbx, f, password=self.password, keyfile=self.keyfile,
                                      transformed_key=transformed_key, decrypt=True)
            except BaseException:
                if filename_tmp.exists():
                    filename_tmp.unlink()
                raise
            else:
                filename_tmp.replace(filename)
"""))
R("save-helper", (PK, SAVE, """            self._write_atomically(filename, transformed_key)

    def _credentials(self, transformed_key):
        return dict(password=self.password, keyfile=self.keyfile, transformed_key=transformed_key)

    def _write_atomically(self, filename, transformed_key):
            filename_tmp = f'{filename}.tmp'
            try:
                KDBX.build_file(self.kdbx, filename_tmp, decrypt=True, **self._credentials(transformed_key))
            except Exception:
                try:
                    os.remove(filename_tmp)
                except FileNotFoundError:
                    pass
                raise
            shutil.move(filename_tmp, filename)
"""))
R("save-membuf", (PK, SAVE, """            data = KDBX.build(self.kdbx, password=self.password, keyfile=self.keyfile,
                              transformed_key=transformed_key, decrypt=True)
            filename_tmp = Path(filename).with_suffix(Path(filename).suffix + '.tmp')
            try:
                filename_tmp.write_bytes(data)
            except Exception:
                filename_tmp.unlink(missing_ok=True)
                raise
            filename_tmp.rename(filename)
"""))
M("C01", "direct", (PK, "                    filename_tmp,\n                    password", "                    filename,\n                    password"))
M("C01", "suffix", (PK, "Path(filename).with_name(Path(filename).name + '.tmp')", "Path(filename).with_suffix('.tmp')"))
M("C01", "copy", (PK, "            shutil.move(filename_tmp, filename)", "            shutil.copyfile(filename_tmp, filename)\n            filename_tmp.unlink()"))
M("C01", "unlinkdest", (PK, "            shutil.move(filename_tmp, filename)", "            Path(filename).unlink(missing_ok=True)\n            shutil.move(filename_tmp, filename)"))
M("C01", "narrow", (PK, "            except Exception as e:\n                filename_tmp", "            except OSError as e:\n                filename_tmp"))
M("C01", "swallow", (PK, "                filename_tmp.unlink(missing_ok=True)\n                raise e", "                filename_tmp.unlink(missing_ok=True)\n                logger.error('save failed')\n                return"))
M("C01", "notolerant", (PK, "unlink(missing_ok=True)", "unlink()"))
M("C01", "leftover", (PK, "                filename_tmp.unlink(missing_ok=True)\n", ""))
M("C01", "finallymove", (PK, SAVE, SAVE.replace("            shutil.move", "            finally:\n                shutil.move")))
M("C01", "tmpdir", (PK, "Path(filename).with_name(Path(filename).name + '.tmp')", "Path('/tmp') / (Path(filename).name + '.tmp')"))
M("C01", "wrapexc", (PK, "                raise e\n            shutil", "                raise Exception('could not save')\n            shutil"))
M("C23", "oldpw", (PK, "            KDBX.build_stream(\n                self.kdbx,\n                filename,\n                password=self.password,", "            KDBX.build_stream(\n                self.kdbx,\n                filename,\n                password=self._saved_password,"))
M("C23", "nokf", (PK, "                    filename_tmp,\n                    password=self.password,\n                    keyfile=self.keyfile,", "                    filename_tmp,\n                    password=self.password,\n                    keyfile=self.keyfile if self.password is None else None,"))
M("C23", "tkcache", (PK, "                    filename_tmp,\n                    password=self.password,\n                    keyfile=self.keyfile,\n                    transformed_key=transformed_key,", "                    filename_tmp,\n                    password=self.password,\n                    keyfile=self.keyfile,\n                    transformed_key=transformed_key or self.transformed_key,"))
M("C23", "kfdate", (PK, "        self._keyfile = keyfile\n        self.credchange_date = datetime.now(timezone.utc)", "        self._keyfile = keyfile\n        if self._password is None:\n            self.credchange_date = datetime.now(timezone.utc)"))
M("C23", "reloadkf", (PK, "self.read(self.filename, self.password, self.keyfile)", "self.read(self.filename, self.password)"))
M("C23", "intervals", (PK, "    def credchange_recommended_days(self, days):\n        path = '/KeePassFile/Meta/MasterKeyChangeRec'", "    def credchange_recommended_days(self, days):\n        path = '/KeePassFile/Meta/MasterKeyChangeForce'"))
M("C05", "early", (PK, "        try:\n            if hasattr(filename, \"read\"):", "        self.filename = filename\n        try:\n            if hasattr(filename, \"read\"):"))
M("C05", "clear", (PK, "        try:\n            if hasattr(filename, \"read\"):", "        self.kdbx = None\n        try:\n            if hasattr(filename, \"read\"):"))
M("C05", "swallow", (PK, "                raise CredentialsError(\"Invalid credentials\")", "                self._password = None\n                raise CredentialsError(\"Invalid credentials\")"))
R("read-restore", (PK, "        try:\n            if hasattr(filename, \"read\"):", "        credentials = dict(password=password, keyfile=keyfile, transformed_key=transformed_key, decrypt=decrypt)\n        try:\n            if hasattr(filename, \"read\"):"),
  (PK, "                self.kdbx = KDBX.parse_stream(\n                    filename,\n                    password=password,\n                    keyfile=keyfile,\n                    transformed_key=transformed_key,\n                    decrypt=decrypt\n                )", "                kdbx = KDBX.parse_stream(filename, **credentials)"),
  (PK, "                self.kdbx = KDBX.parse_file(\n                    filename,\n                    password=password,\n                    keyfile=keyfile,\n                    transformed_key=transformed_key,\n                    decrypt=decrypt\n                )", "                kdbx = KDBX.parse_file(filename, **credentials)"),
  (PK, "        # only remember these", "        self.kdbx = kdbx\n        # only remember these"))
M("C29", "notk", (PK, "keepass_instance.save(transformed_key=transformed_key)", "keepass_instance.save()"))
M("C29", "nopw", (PK, "    keepass_instance.password = password\n", "    if password:\n        keepass_instance.password = password\n"))
M("C29", "kf", (PK, "    keepass_instance.keyfile = keyfile\n\n", "    if password is None:\n        keepass_instance.keyfile = keyfile\n\n"))
M("C29", "fname", (PK, "    keepass_instance.filename = filename\n    keepass", "    keepass"), (PK, "keepass_instance.save(transformed_key=transformed_key)", "keepass_instance.save(filename, transformed_key=transformed_key)"))
R("create-save-arg", (PK, "    keepass_instance.filename = filename\n    keepass", "    keepass"), (PK, "    keepass_instance.save(transformed_key=transformed_key)\n", "    keepass_instance.save(filename, transformed_key=transformed_key)\n    keepass_instance.filename = filename\n"))
# ---------------------------------------------------------------- times
ENC = """            diff_seconds = int(
                (
                    value -
                    datetime(
                        year=1,
                        month=1,
                        day=1,
                        tzinfo=timezone.utc
                    )
                ).total_seconds()
            )
            return base64.b64encode(
                struct.pack('<Q', diff_seconds)
            ).decode('utf-8')
"""
R("time-utcfirst", (PK, ENC, """            epoch = datetime(1, 1, 1, tzinfo=timezone.utc)
            seconds = int((value.astimezone(timezone.utc) - epoch).total_seconds())
            return base64.b64encode(seconds.to_bytes(8, 'little')).decode()
"""))
R("time-floordiv", (PK, ENC, """            epoch = datetime(1, 1, 1, tzinfo=timezone.utc)
            return base64.b64encode(struct.pack('<Q', (value - epoch) // timedelta(seconds=1))).decode('ascii')
"""))
R("time-mathfloor", (PK, ENC, """            epoch = datetime.min.replace(tzinfo=timezone.utc)
            delta = value - epoch
            return base64.b64encode(struct.pack('<Q', delta.days * 86400 + delta.seconds)).decode('utf-8')
"""))
R("time-const", (PK, "class PyKeePass:\n", "EPOCH = datetime(year=1, month=1, day=1, tzinfo=timezone.utc)\n\nclass PyKeePass:\n"),
  (PK, ENC, """            packed = struct.pack('<Q', int((value - EPOCH).total_seconds()))
            return str(base64.b64encode(packed), 'utf-8')
"""), (PK, """                return (
                    datetime(year=1, month=1, day=1, tzinfo=timezone.utc) +
                    timedelta(
                        seconds=struct.unpack('<Q', base64.b64decode(text))[0]
                    )
                )
""", """                (seconds,) = struct.unpack('<Q', base64.b64decode(text))
                return EPOCH + timedelta(seconds=seconds)
"""))
R("time-decode-else", (PK, """            try:
                return (
                    datetime(year=1, month=1, day=1, tzinfo=timezone.utc) +
                    timedelta(
                        seconds=struct.unpack('<Q', base64.b64decode(text))[0]
                    )
                )
            except (BinasciiError, struct.error):
                return self._decode_iso_time(text)
        else:
            return self._decode_iso_time(text)
""", """            try:
                seconds = int.from_bytes(struct.pack('8s', b'') and base64.b64decode(text), 'little') if False else struct.unpack('<Q', base64.b64decode(text))[0]
            except (ValueError, struct.error):
                pass
            else:
                return datetime(year=1, month=1, day=1, tzinfo=timezone.utc) + timedelta(seconds=seconds)
        return self._decode_iso_time(text)
"""))
R("time-iso", (PK, "        date = datetime.fromisoformat(text.replace('Z','+00:00'))\n        if date.tzinfo is None:\n            return date.replace(tzinfo=timezone.utc)\n        return date.astimezone(timezone.utc)\n",
 "        parsed = datetime.fromisoformat(text.replace('Z', '+00:00'))\n        return parsed.astimezone(timezone.utc) if parsed.tzinfo is not None else parsed.replace(tzinfo=timezone.utc)\n"))
R("time-iso3utc", (PK, "            return value.isoformat()\n", "            return value.astimezone(timezone.utc).isoformat()\n"))
R("time-strip", (PK, "            return value.isoformat()\n", "            return value.astimezone(timezone.utc).strftime('%Y-%m-%dT%H:%M:%SZ')\n"))
M("C22", "strftime", (PK, "            return value.isoformat()\n", "            return value.strftime('%Y-%m-%dT%H:%M:%SZ')\n"))
M("C22", "minutes", (PK, "            return value.isoformat()\n", "            return value.isoformat(timespec='minutes')\n"))
M("C22", "bigendian", (PK, "struct.pack('<Q', diff_seconds)", "struct.pack('>Q', diff_seconds)"), (PK, "struct.unpack('<Q', base64.b64decode(text))[0]", "struct.unpack('>Q', base64.b64decode(text))[0]"))
M("C22", "round", (PK, "            diff_seconds = int(\n", "            diff_seconds = round(\n"))
M("C22", "replace", (PK, "                    value -\n", "                    value.replace(tzinfo=timezone.utc) -\n"))
M("C22", "epoch", (PK, "                        year=1,\n                        month=1,", "                        year=1970,\n                        month=1,"), (PK, "datetime(year=1, month=1, day=1, tzinfo=timezone.utc) +", "datetime(year=1970, month=1, day=1, tzinfo=timezone.utc) +"))
M("C22", "offset", (PK, "        return date.astimezone(timezone.utc)\n", "        return date.replace(tzinfo=timezone.utc)\n"))
M("C22", "fallback", (PK, "except (BinasciiError, struct.error):", "except BinasciiError:"))
M("C22", "version", (PK, "        if self.version >= (4, 0):\n            diff_seconds", "        if self.version > (4, 0):\n            diff_seconds"))
M("C22", "nowlocal", (BE, "        now = datetime.now(timezone.utc)\n        self.atime", "        now = datetime.now().replace(tzinfo=timezone.utc)\n        self.atime"))
M("C22", "utcnow", (PK, "        self._password = password\n        self.credchange_date = datetime.now(timezone.utc)", "        self._password = password\n        self.credchange_date = datetime.now().astimezone().replace(tzinfo=timezone.utc)"))
M("C33", "ge", (BE, "                datetime.now(timezone.utc) >\n", "                datetime.now(timezone.utc) >=\n"))
M("C33", "noflag", (BE, "        if self.expires:\n", "        if self.expires is not None:\n"))
M("C33", "gedays", (PK, "        return (now_date - change_date).days > self.credchange_recommended_days", "        return (now_date - change_date).days >= self.credchange_recommended_days"))
M("C33", "crossed", (PK, "        if change_date is None or self.credchange_recommended_days == -1:", "        if change_date is None or self.credchange_required_days == -1:"))
M("C33", "seconds", (PK, "        return (now_date - change_date).days > self.credchange_required_days", "        return (now_date - change_date).total_seconds() / 86400 > self.credchange_required_days"))
M("C33", "touchc", (BE, "        if modify:\n            self.mtime = now", "        if modify:\n            self.mtime = self.ctime = now"))
M("C33", "touchm", (BE, "        self.atime = now\n        if modify:\n            self.mtime = now", "        if modify:\n            self.mtime = now\n        else:\n            self.atime = now"))
R("expired-and", (BE, """        if self.expires:
            return (
                datetime.now(timezone.utc) >
                self.expiry_time
            )

        return False
""", """        return bool(self.expires) and self.expiry_time < datetime.now(tz=timezone.utc)
"""))
R("expired-early", (BE, """        if self.expires:
            return (
                datetime.now(timezone.utc) >
                self.expiry_time
            )

        return False
""", """        if not self.expires:
            return False
        now = datetime.now(timezone.utc)
        return (now - self.expiry_time).total_seconds() > 0
"""))
R("credage-helper", (PK, """        change_date = self.credchange_date
        if change_date is None or self.credchange_required_days == -1:
            return False
        now_date = datetime.now(timezone.utc)
        return (now_date - change_date).days > self.credchange_required_days
""", """        return self._credentials_older_than(self.credchange_required_days)

    def _credentials_older_than(self, days):
        changed = self.credchange_date
        if changed is None:
            return False
        if days == -1:
            return False
        age = datetime.now(timezone.utc) - changed
        return age.days > days
"""))

# ---------------------------------------------------------------- format: behaviour kept
R("fmt-hmac-helper", (K4, '''def compute_header_hmac_hash(context):
    """Compute HMAC-SHA256 hash of header.
    Used to prevent header tampering."""

    return hmac.new(
        hashlib.sha512(
            b'\\xff' * 8 +
            hashlib.sha512(
                context._.header.value.dynamic_header.master_seed.data +
                context.transformed_key +
                b'\\x01'
            ).digest()
        ).digest(),
        context._.header.data,
        hashlib.sha256
    ).digest()
''', '''def hmac_base(master_seed, transformed_key):
    h = hashlib.sha512()
    h.update(master_seed)
    h.update(transformed_key)
    h.update(b'\\x01')
    return h.digest()


def block_key(prefix, master_seed, transformed_key):
    return hashlib.sha512(prefix + hmac_base(master_seed, transformed_key)).digest()


def compute_header_hmac_hash(context):
    """Compute HMAC-SHA256 hash of header.
    Used to prevent header tampering."""

    header = context._.header
    key = block_key(b'\\xff' * 8, header.value.dynamic_header.master_seed.data, context.transformed_key)
    return hmac.new(key, header.data, 'sha256').digest()
'''), (K4, '''    return hmac.new(
        hashlib.sha512(
            struct.pack('<Q', this._index) +
            hashlib.sha512(
                this._._.header.value.dynamic_header.master_seed.data +
                this._.transformed_key + b'\\x01'
            ).digest()
        ).digest(),
        struct.pack('<Q', this._index) +
        struct.pack('<I', len(this.block_data)) +
        this.block_data, hashlib.sha256
    ).digest()
''', '''    index = this._index.to_bytes(8, 'little')
    size = len(this.block_data).to_bytes(4, 'little')
    seed = this._._.header.value.dynamic_header.master_seed.data
    mac = hmac.new(block_key(index, seed, this._.transformed_key), digestmod=hashlib.sha256)
    mac.update(index + size)
    mac.update(this.block_data)
    return mac.digest()
'''))
R("fmt-pack-qi", (K4, '''        struct.pack('<Q', this._index) +
        struct.pack('<I', len(this.block_data)) +
        this.block_data, hashlib.sha256
''', '''        struct.pack('<QI', this._index, len(this.block_data)) +
        this.block_data, hashlib.sha256
'''))
R("fmt-rename-block", (K4, '''    "block_data" / Prefixed(Int32ul, GreedyBytes),
''', '''    "block_data" / Prefixed(Int32ul, GreedyBytes),  # data
'''), (K4, '''EncryptedPayload = Concatenated(RepeatUntil(
    lambda item, a, b: len(item.block_data) == 0,
    EncryptedPayloadBlock
))
''', '''def is_last_block(item, _list, _ctx):
    """the terminating block has no data"""
    return not item.block_data


EncryptedPayload = Concatenated(RepeatUntil(is_last_block, EncryptedPayloadBlock))
'''))
R("fmt-concat-loop", (CO, '''        return b''.join([block.block_data for block in blocks])
''', '''        return b''.join(block.block_data for block in blocks)
'''), (CO, '''        blocks = []
        # split payload_data into 1 MB blocks (spec default)
        i = 0
        while i < len(payload_data):
            blocks.append(Container(block_data=payload_data[i:i + 2**20]))
            i += 2**20
        blocks.append(Container(block_data=b''))

        return blocks
''', '''        size = 1024 * 1024
        blocks = [
            Container(block_data=payload_data[start:start + size])
            for start in range(0, len(payload_data), size)
        ]
        return blocks + [Container(block_data=b'')]
'''))
R("fmt-concat-for", (CO, '''        return b''.join([block.block_data for block in blocks])
''', '''        data = b''
        for block in blocks:
            data += block.block_data
        return data
'''), (CO, '''        i = 0
        while i < len(payload_data):
            blocks.append(Container(block_data=payload_data[i:i + 2**20]))
            i += 2**20
''', '''        for i in range(0, len(payload_data), 2**20):
            block = payload_data[i:i + 2**20]
            blocks.append(Container(block_data=block))
'''))
R("fmt-payload-template", (CO, '''        payload_data = self.pad(payload_data)
        cipher = self.get_cipher(
            con.master_key,
            con._.header.value.dynamic_header.encryption_iv.data
        )
        payload_data = cipher.encrypt(payload_data)

        return payload_data
''', '''        return self._cipher(con).encrypt(self.pad(payload_data))

    def _cipher(self, con):
        iv = con._.header.value.dynamic_header.encryption_iv.data
        return self.get_cipher(con.master_key, iv)
'''), (CO, '''        cipher = self.get_cipher(
            con.master_key,
            con._.header.value.dynamic_header.encryption_iv.data
        )
        payload_data = cipher.decrypt(payload_data)
        # FIXME''', '''        payload_data = self._cipher(con).decrypt(payload_data)
        # FIXME'''))
R("fmt-pad-mixin", (CO, '''class AES256Payload(DecryptedPayload):
    def get_cipher(self, master_key, encryption_iv):
        return AES.new(master_key, AES.MODE_CBC, encryption_iv)
    def pad(self, data):
        return CryptoPadding.pad(data, 16)
    def unpad(self, data):
        return CryptoPadding.unpad(data, 16)
''', '''class BlockPayload(DecryptedPayload):
    block_size = 16

    def pad(self, data):
        return CryptoPadding.pad(data, self.block_size)

    def unpad(self, data):
        return CryptoPadding.unpad(data, self.block_size)


class AES256Payload(BlockPayload):
    def get_cipher(self, master_key, encryption_iv):
        return AES.new(key=master_key, mode=AES.MODE_CBC, iv=encryption_iv)
'''), (CO, '''class TwoFishPayload(DecryptedPayload):
    def get_cipher(self, master_key, encryption_iv):
        return Twofish.new(master_key, mode=Twofish.MODE_CBC, IV=encryption_iv)
    def pad(self, data):
        return CryptoPadding.pad(data, 16)
    def unpad(self, data):
        return CryptoPadding.unpad(data, 16)
''', '''class TwoFishPayload(BlockPayload):
    def get_cipher(self, master_key, encryption_iv):
        return Twofish.new(master_key, Twofish.MODE_CBC, encryption_iv)
'''))
R("fmt-gzip", (CO, '''        compressobj = zlib.compressobj(
            6,
            zlib.DEFLATED,
            16 + 15,
            zlib.DEF_MEM_LEVEL,
            0
        )
        data = compressobj.compress(data)
        data += compressobj.flush()
        return data
''', '''        compressor = zlib.compressobj(wbits=GZIP_WBITS, level=9)
        return compressor.compress(data) + compressor.flush()
'''), (CO, '''        return zlib.decompress(data, 16 + 15)
''', '''        return zlib.decompress(data, wbits=GZIP_WBITS)
'''), (CO, '''class Decompressed(Adapter):''', '''GZIP_WBITS = zlib.MAX_WBITS | 16


class Decompressed(Adapter):'''))
R("fmt-unprotect-helper", (CO, '''                try:
                    result = cipher.decrypt(base64.b64decode(elem.text)).decode('utf-8')
                    # strip invalid XML characters - https://stackoverflow.com/questions/8733233
                    result = re.sub(
                        '[^\\u0020-\\uD7FF\\u0009\\u000A\\u000D\\uE000-\\uFFFD\\U00010000-\\U0010FFFF]+',
                        '',
                        result
                    )
                    elem.text = result
                except''', '''                try:
                    elem.text = self._plain(cipher, elem.text)
                except'''), (CO, '''    def _encode(self, tree, con, path):
        tree_copy = deepcopy(tree)
        cipher = self.get_cipher(self.protected_stream_key(con))
        for elem in tree_copy.xpath(self.protected_xpath):
            if elem.text is not None:
                elem.text = base64.b64encode(
                    cipher.encrypt(
                        elem.text.encode('utf-8')
                    )
                )
        return tree_copy
''', '''    @staticmethod
    def _plain(cipher, text):
        result = cipher.decrypt(base64.b64decode(text)).decode('utf-8')
        # strip invalid XML characters - https://stackoverflow.com/questions/8733233
        return INVALID_XML.sub('', result)

    def _encode(self, tree, con, path):
        cipher = self.get_cipher(self.protected_stream_key(con))
        copied = deepcopy(tree)
        for elem in copied.xpath(self.protected_xpath):
            if elem.text is None:
                continue
            data = cipher.encrypt(elem.text.encode('utf-8'))
            elem.text = base64.b64encode(data).decode('ascii')
        return copied
'''), (CO, '''class UnprotectedStream(Adapter):''', '''INVALID_XML = re.compile('[^\\u0020-\\uD7FF\\u0009\\u000A\\u000D\\uE000-\\uFFFD\\U00010000-\\U0010FFFF]+')


class UnprotectedStream(Adapter):'''))
R("fmt-unprotect-truthy", (CO, '''        for elem in tree_copy.xpath(self.protected_xpath):
            if elem.text is not None:
''', '''        for elem in tree_copy.xpath(self.protected_xpath):
            if elem.text:
'''), (CO, '''            if elem.text is not None:
                try:
''', '''            if elem.text:
                try:
'''))
R("fmt-unprotect-iter", (CO, '''        for elem in tree_copy.xpath(self.protected_xpath):
            if elem.text is not None:
''', '''        for elem in tree_copy.iter('Value'):
            if elem.get('Protected') == 'True' and elem.text is not None:
'''))
R("fmt-dyndict", (CO, '''        d = OrderedDict()
        for l in self.lump:
            d[l] = ListContainer([])
        for item in obj:
            if item[self.key] in self.lump:
                d[item[self.key]].append(item)
            else:
                d[item[self.key]] = item

        return Container(d)
''', '''        result = Container((name, ListContainer([])) for name in self.lump)
        for item in obj:
            key = item[self.key]
            if key in self.lump:
                result[key].append(item)
            else:
                result[key] = item

        return result
'''), (CO, '''        l = []
        for key in obj:
            if key in self.lump:
                l += obj[key]
            else:
                l.append(obj[key])

        return ListContainer(l)
''', '''        items = ListContainer()
        for key, value in obj.items():
            if key in self.lump:
                items.extend(value)
            else:
                items.append(value)

        return items
'''))
R("fmt-kdf-tables", (K4, '''    elif kdf_parameters['$UUID'].value in (kdf_uuids['argon2'], kdf_uuids['argon2id']):
        transformed_key = argon2.low_level.hash_secret_raw(
            secret=key_composite,
            salt=kdf_parameters['S'].value,
            hash_len=32,
            type=(argon2.low_level.Type.ID if kdf_parameters['$UUID'].value == kdf_uuids['argon2id'] else argon2.low_level.Type.D),
''', '''    elif kdf_parameters['$UUID'].value in argon2_types:
        transformed_key = argon2.low_level.hash_secret_raw(
            secret=key_composite,
            salt=kdf_parameters['S'].value,
            hash_len=32,
            type=argon2_types[kdf_parameters['$UUID'].value],
'''), (K4, '''def compute_transformed(context):''', '''argon2_types = {
    kdf_uuids['argon2']: argon2.low_level.Type.D,
    kdf_uuids['argon2id']: argon2.low_level.Type.ID,
}


def compute_transformed(context):'''))
R("fmt-aeskdf-while", (CO, '''    transformed_key = key_composite
    for _ in range(0, rounds):
        transformed_key = cipher.encrypt(transformed_key)

    return hashlib.sha256(transformed_key).digest()
''', '''    block = key_composite
    for _round in range(rounds):
        block = cipher.encrypt(block)
    digest = hashlib.sha256(block)
    return digest.digest()
'''))
R("fmt-composite-split", (CO, '''    # hash the password
    if password is not None:
        password_composite = hashlib.sha256(password.encode('utf-8')).digest()
    else:
        password_composite = b''
''', '''    password_composite = _password_part(password)
'''), (CO, '''def compute_key_composite(''', '''def _password_part(password):
    """hash the password"""
    if password is None:
        return b''
    return hashlib.sha256(password.encode()).digest()


def compute_key_composite('''))
R("fmt-body-inline", (K4, '''    "sha256" / Checksum(
        Bytes(32),
        lambda data: hashlib.sha256(data).digest(),
        this._.header.data,
        # exception=HeaderChecksumError,
    ),
''', '''    "sha256" / Checksum(Bytes(32), header_digest, lambda ctx: ctx._.header.data),
'''), (K4, '''def compute_header_hmac_hash(context):''', '''def header_digest(data):
    digest = hashlib.sha256()
    digest.update(data)
    return digest.digest()


def compute_header_hmac_hash(context):'''))
R("fmt-k3-blockhash", (K3, '''        IfThenElse(
            len_(this.block_data) == 0,
            Checksum(
                Bytes(32),
                lambda _: b'\\x00' * 32,
                this
            ),
            Checksum(
                Bytes(32),
                lambda block_data: hashlib.sha256(block_data).digest(),
                this.block_data,
                # exception=PayloadChecksumError
            )
        )
''', '''        Checksum(Bytes(32), block_digest, this.block_data)
'''), (K3, '''# encrypted payload is split into multiple data blocks with hashes
''', '''def block_digest(data):
    if not data:
        return bytes(32)
    return hashlib.sha256(data).digest()


# encrypted payload is split into multiple data blocks with hashes
'''))
R("fmt-sig-const", (KX, '''    return ctx.sig1 == b'\\x03\\xd9\\xa2\\x9a' and ctx.sig2 == b'\\x67\\xFB\\x4B\\xB5'
''', '''    return (ctx.sig1, ctx.sig2) == SIGNATURES
'''), (KX, '''# verify file signature
''', '''SIGNATURES = (b'\\x03\\xd9\\xa2\\x9a', b'\\x67\\xFB\\x4B\\xB5')


# verify file signature
'''))

# ---------------------------------------------------------------- format: broken
M("C02", "hdr-hmac-noseed", (K4, '''                context._.header.value.dynamic_header.master_seed.data +
                context.transformed_key +
                b'\\x01'
''', '''                context.transformed_key +
                b'\\x01'
'''))
M("C02", "block-noindex", (K4, '''        struct.pack('<Q', this._index) +
        struct.pack('<I', len(this.block_data)) +
''', '''        struct.pack('<I', len(this.block_data)) +
'''))
M("C02", "block-key-noindex", (K4, '''            struct.pack('<Q', this._index) +
            hashlib.sha512(
                this''', '''            struct.pack('<Q', 0) +
            hashlib.sha512(
                this'''))
M("C02", "hdr-check-optional", (K4, '''    "cred_check" / If(this._._.decrypt,
''', '''    "cred_check" / If(lambda ctx: ctx._._.decrypt and ctx._._.transformed_key is None,
'''))
M("C02", "block-partial", (K4, '''        this.block_data, hashlib.sha256
''', '''        this.block_data[:2**16], hashlib.sha256
'''))
M("C02", "last-unchecked", (K4, '''    "hmac_hash" / Pointer(
        this.hmac_hash_offset,
        Checksum(
            Bytes(32),
            compute_payload_block_hash,
            this,
            # exception=PayloadChecksumError
        )
    )
''', '''    "hmac_hash" / Pointer(
        this.hmac_hash_offset,
        IfThenElse(
            lambda ctx: len(ctx.block_data) == 0,
            Bytes(32),
            Checksum(
                Bytes(32),
                compute_payload_block_hash,
                this,
            )
        )
    )
'''))
M("C02", "hdr-stale", (K4, '''    "transformed_key" / Computed(compute_transformed),
    "master_key" / Computed(compute_master),
    "sha256"''', '''    "master_key" / Computed(compute_master),
    "transformed_key" / Computed(compute_transformed),
    "sha256"'''))
M("C03", "start-unchecked", (K3, '''        "cred_check" / Checksum(
            Bytes(32),
            lambda this: this._._.header.value.dynamic_header.stream_start_bytes.data,
            this,
            # exception=CredentialsError
        ),
''', '''        "cred_check" / Bytes(32),
'''))
M("C03", "index-unchecked", (K3, '''    "block_index" / Checksum(
        Int32ul,
        lambda this: this._index,
        this
    ),
''', '''    "block_index" / Int32ul,
'''))
M("C03", "hash-prefix", (K3, '''                lambda block_data: hashlib.sha256(block_data).digest(),
                this.block_data,
''', '''                lambda block_data: hashlib.sha256(block_data[:2**19]).digest(),
                this.block_data,
'''))
M("C03", "zero-unchecked", (K3, '''            Checksum(
                Bytes(32),
                lambda _: b'\\x00' * 32,
                this
            ),
''', '''            Bytes(32),
'''))
M("C08", "wbits", (CO, "        return zlib.decompress(data, 16 + 15)", "        return zlib.decompress(data)"))
M("C08", "flush", (CO, "        data += compressobj.flush()\n", "        compressobj.flush()\n"))
M("C08", "pad8", (CO, '''        return Twofish.new(master_key, mode=Twofish.MODE_CBC, IV=encryption_iv)
    def pad(self, data):
        return CryptoPadding.pad(data, 16)''', '''        return Twofish.new(master_key, mode=Twofish.MODE_CBC, IV=encryption_iv)
    def pad(self, data):
        return CryptoPadding.pad(data, 32)'''))
M("C08", "chunk-overlap", (CO, "            i += 2**20\n", "            i += 2**20 - 1\n"))
M("C08", "chunk-gap", (CO, "payload_data[i:i + 2**20]", "payload_data[i:i + 2**20 - 16]"))
M("C08", "chunk-last", (CO, "        while i < len(payload_data):", "        while i < len(payload_data) - 1:"))
M("C08", "binary-order", (CO, "                l += obj[key]\n", "                l += obj[key][::-1]\n"))
M("C08", "binary-last", (CO, "                l += obj[key]\n", "                l += obj[key][:1]\n"))
M("C08", "end-first", (CO, "            else:\n                l.append(obj[key])", "            else:\n                l.insert(0, obj[key])"))
M("C08", "dup-item", (CO, "                d[item[self.key]].append(item)", "                d[item[self.key]].insert(0, item)"))
M("C08", "strip-xml", (CO, "        return etree.tostring(tree)", "        return etree.tostring(tree, method='text', encoding='utf-8')"))
M("C08", "iv-seed", (CO, '''        payload_data = self.pad(payload_data)
        cipher = self.get_cipher(
            con.master_key,
            con._.header.value.dynamic_header.encryption_iv.data
        )''', '''        payload_data = self.pad(payload_data)
        cipher = self.get_cipher(
            con.master_key,
            con._.header.value.dynamic_header.master_seed.data
        )'''))
M("C10", "cipher-per-value", (CO, '''        cipher = self.get_cipher(self.protected_stream_key(con))
        for elem in tree_copy.xpath(self.protected_xpath):
            if elem.text is not None:
                elem''', '''        for elem in tree_copy.xpath(self.protected_xpath):
            if elem.text is not None:
                cipher = self.get_cipher(self.protected_stream_key(con))
                elem'''))
M("C10", "no-copy", (CO, "        tree_copy = deepcopy(tree)", "        tree_copy = tree"))
M("C10", "no-history", (CO, '''        for elem in tree_copy.xpath(self.protected_xpath):
            if''', '''        for elem in tree_copy.xpath('//Value[@Protected=\\'True\\' and not(ancestor::History)]'):
            if'''))
M("C10", "reverse", (CO, '''        for elem in tree_copy.xpath(self.protected_xpath):
            if''', '''        for elem in reversed(tree_copy.xpath(self.protected_xpath)):
            if'''))
M("C10", "string-only", (CO, "    protected_xpath = '//Value[@Protected=\\'True\\']'", "    protected_xpath = '//String/Value[@Protected=\\'True\\']'"))
M("C10", "try-outside", (CO, '''        for elem in tree.xpath(self.protected_xpath):
            if elem.text is not None:
                try:
                    result = cipher.decrypt(base64.b64decode(elem.text)).decode('utf-8')
                    # strip invalid XML characters - https://stackoverflow.com/questions/8733233
                    result = re.sub(
                        '[^\\u0020-\\uD7FF\\u0009\\u000A\\u000D\\uE000-\\uFFFD\\U00010000-\\U0010FFFF]+',
                        '',
                        result
                    )
                    elem.text = result
                except (UnicodeDecodeError, BinasciiError, ValueError):
                    # FIXME: this should be a warning eventually, need to fix all databases in tests/ first
                    log.error(
                        "Element at {} marked as protected, but could not unprotect".format(tree.getpath(elem))
                    )
''', '''        try:
            for elem in tree.xpath(self.protected_xpath):
                if elem.text is not None:
                    result = cipher.decrypt(base64.b64decode(elem.text)).decode('utf-8')
                    elem.text = re.sub(
                        '[^\\u0020-\\uD7FF\\u0009\\u000A\\u000D\\uE000-\\uFFFD\\U00010000-\\U0010FFFF]+',
                        '',
                        result
                    )
        except (UnicodeDecodeError, BinasciiError, ValueError):
            log.error(
                "Element at {} marked as protected, but could not unprotect".format(tree.getpath(elem))
            )
'''))
M("C10", "strip-newline", (CO, "\\u0009\\u000A\\u000D\\uE000", "\\u0009\\uE000"))
M("C10", "strip-bmp", (CO, "\\uFFFD\\U00010000-\\U0010FFFF]+", "\\uFFFD]+"))
M("C10", "nonce", (CO, "        nonce = key_hash[32:44]", "        nonce = key_hash[:12]"))
M("C10", "whitespace", (CO, '''            if elem.text is not None:
                elem.text = base64.b64encode(''', '''            if elem.text is not None and elem.text.strip():
                elem.text = base64.b64encode('''))
M("C10", "narrow-except", (CO, "                except (UnicodeDecodeError, BinasciiError, ValueError):", "                except UnicodeDecodeError:"))
M("C10", "break", (CO, '''marked as protected, but could not unprotect".format(tree.getpath(elem))
                    )
''', '''marked as protected, but could not unprotect".format(tree.getpath(elem))
                    )
                    break
'''))
M("C10", "none-stream", (CO, "        default=subcon\n", "        default=Salsa20Stream(protected_stream_key, subcon)\n"))

# ---------------------------------------------------------------- C04
M("C04", "blockindex-raw", (PK, "                    '(parsing) -> xml -> block_hash', # KDBX3\n", "                    '(parsing) -> xml -> block_data_hash', # KDBX3\n"))
M("C04", "hmac-as-cred", (PK, "                    '(parsing) -> cred_check' # KDBX3\n                    ):", "                    '(parsing) -> cred_check', # KDBX3\n                    '(parsing) -> body -> payload -> hmac_hash'\n                    ):"))
M("C04", "rename-field", (K4, '''    "hmac_hash" / Pointer(
        this.hmac_hash_offset,''', '''    "block_hmac" / Pointer(
        this.hmac_hash_offset,'''))
M("C04", "sha-cred", (PK, "            elif e.path == '(parsing) -> body -> sha256':\n                raise HeaderChecksumError(\"Corrupted database\")", "            elif e.path == '(parsing) -> body -> sha256':\n                raise CredentialsError(\"Corrupted database\")"))
M("C04", "swallow", (PK, '''        except CheckError as e:
            if e.path == '(parsing) -> header -> sig_check':
                raise HeaderChecksumError("Not a KeePass database")
            else:
                raise
''', '''        except CheckError as e:
            if e.path == '(parsing) -> header -> sig_check':
                raise HeaderChecksumError("Not a KeePass database")
'''))
M("C04", "stream-cred", (PK, "        except CheckError as e:\n", "        except StreamError:\n            raise PayloadChecksumError('truncated')\n        except CheckError as e:\n"),
  (PK, "from construct import ", "from construct import StreamError, "))
M("C04", "zlib-swallow", (CO, "        return zlib.decompress(data, 16 + 15)", "        try:\n            return zlib.decompress(data, 16 + 15)\n        except zlib.error:\n            return data"))
M("C04", "xml-recover", (CO, "        parser = etree.XMLParser(remove_blank_text=True)", "        parser = etree.XMLParser(remove_blank_text=True, recover=True)"))
M("C04", "unpad-raises", (CO, "        except ValueError:\n            log.debug(\"Decryption unpadding failed\")", "        except ValueError:\n            log.debug(\"Decryption unpadding failed\")\n            raise"))
M("C04", "sigcheck-sub", (KX, '            "sig_check" / Check(check_signature),', '            "signature" / Check(check_signature),'))
R("err-map", (PK, '''        except ChecksumError as e:
            if e.path in (
                    '(parsing) -> body -> cred_check', # KDBX4
                    '(parsing) -> cred_check' # KDBX3
                    ):
                raise CredentialsError("Invalid credentials")
            elif e.path == '(parsing) -> body -> sha256':
                raise HeaderChecksumError("Corrupted database")
            elif e.path in (
                    '(parsing) -> body -> payload -> hmac_hash', # KDBX4
                    '(parsing) -> xml -> block_hash', # KDBX3
                    '(parsing) -> xml -> block_index' # KDBX3
                    ):
                raise PayloadChecksumError("Error reading database contents")
            else:
                raise
''', '''        except ChecksumError as e:
            known = {
                '(parsing) -> body -> cred_check': (CredentialsError, "Invalid credentials"),
                '(parsing) -> cred_check': (CredentialsError, "Invalid credentials"),
                '(parsing) -> body -> sha256': (HeaderChecksumError, "Corrupted database"),
                '(parsing) -> body -> payload -> hmac_hash': (PayloadChecksumError, "Error reading database contents"),
                '(parsing) -> xml -> block_hash': (PayloadChecksumError, "Error reading database contents"),
                '(parsing) -> xml -> block_index': (PayloadChecksumError, "Error reading database contents"),
            }
            if e.path not in known:
                raise
            cls, message = known[e.path]
            raise cls(message)
'''))
R("err-suffix", (PK, '''            if e.path in (
                    '(parsing) -> body -> cred_check', # KDBX4
                    '(parsing) -> cred_check' # KDBX3
                    ):
                raise CredentialsError("Invalid credentials")''', '''            if e.path.endswith('-> cred_check'):
                raise CredentialsError("Invalid credentials") from e'''))
R("err-helper", (PK, '''        except CheckError as e:
            if e.path == '(parsing) -> header -> sig_check':
                raise HeaderChecksumError("Not a KeePass database")
            else:
                raise
''', '''        except CheckError as e:
            self._signature_error(e)
'''), (PK, '''    def reload(self):
''', '''    @staticmethod
    def _signature_error(e):
        if e.path != '(parsing) -> header -> sig_check':
            raise e
        raise HeaderChecksumError("Not a KeePass database")

    def reload(self):
'''))
R("rename-check", (K4, '''    "hmac_hash" / Pointer(
        this.hmac_hash_offset,''', '''    "block_hmac" / Pointer(
        this.hmac_hash_offset,'''), (PK, "'(parsing) -> body -> payload -> hmac_hash', # KDBX4", "'(parsing) -> body -> payload -> block_hmac', # KDBX4"))
# ---------------------------------------------------------------- C06
M("C06", "rounds", (CO, "    for _ in range(0, rounds):", "    for _ in range(1, rounds):"))
M("C06", "empty-pw", (CO, "    if password is not None:", "    if password:"))
M("C06", "latin", (CO, "password.encode('utf-8')", "password.encode('latin-1', 'replace')"))
M("C06", "argon-par", (K4, "            parallelism=kdf_parameters['P'].value,", "            parallelism=2,"))
M("C06", "argon-ver", (K4, "            memory_cost=kdf_parameters['M'].value // 1024,", "            memory_cost=kdf_parameters['M'].value >> 9,"))
M("C06", "argon-version", (K4, "            parallelism=kdf_parameters['P'].value,\n            version=kdf_parameters['V'].value\n", "            parallelism=kdf_parameters['P'].value\n"))
M("C06", "argon-id", (K4, "Type.ID if kdf_parameters['$UUID'].value == kdf_uuids['argon2id'] else argon2.low_level.Type.D", "Type.D if kdf_parameters['$UUID'].value == kdf_uuids['argon2id'] else argon2.low_level.Type.D"))
M("C06", "no-final-hash", (CO, "    return hashlib.sha256(password_composite + keyfile_composite).digest()", "    return hashlib.sha256(password_composite + keyfile_composite).digest() if keyfile_composite else password_composite"))
M("C06", "order", (CO, "    return hashlib.sha256(password_composite + keyfile_composite).digest()", "    return hashlib.sha256(keyfile_composite + password_composite).digest()"))
M("C06", "seed", (CO, "        context._.header.value.dynamic_header.master_seed.data +\n        context.transformed_key).digest()", "        context._.header.value.dynamic_header.master_seed.data[:32] +\n        context.transformed_key).digest()"))
M("C06", "pw-strip", (CO, "password.encode('utf-8')", "password.strip().encode('utf-8')"))
M("C06", "salt", (K4, "            kdf_parameters['S'].value,\n            kdf_parameters['R'].value,", "            context._.header.value.dynamic_header.master_seed.data,\n            kdf_parameters['R'].value,"))
M("C06", "tk-truth", (K3, "    if context._._.transformed_key is not None:\n        transformed_key = context._._.transformed_key\n", "    if context._._.transformed_key is not None and context._._.password is None:\n        transformed_key = context._._.transformed_key\n"))
R("kdf-reduce", (CO, '''    transformed_key = key_composite
    for _ in range(0, rounds):
        transformed_key = cipher.encrypt(transformed_key)
''', '''    transformed_key = key_composite
    for _round in range(rounds):
        transformed_key = cipher.encrypt(transformed_key)
'''))
R("kdf-while", (CO, '''    for _ in range(0, rounds):
        transformed_key = cipher.encrypt(transformed_key)
''', '''    done = 0
    while done < rounds:
        transformed_key = cipher.encrypt(transformed_key)
        done += 1
'''))
R("composite-parts", (CO, '''    return hashlib.sha256(password_composite + keyfile_composite).digest()
''', '''    parts = [password_composite, keyfile_composite]
    digest = hashlib.sha256()
    for part in parts:
        digest.update(part)
    return digest.digest()
'''))
R("kdf-params", (K4, '''        transformed_key = argon2.low_level.hash_secret_raw(
            secret=key_composite,
            salt=kdf_parameters['S'].value,
            hash_len=32,
            type=(argon2.low_level.Type.ID if kdf_parameters['$UUID'].value == kdf_uuids['argon2id'] else argon2.low_level.Type.D),
            time_cost=kdf_parameters['I'].value,
            memory_cost=kdf_parameters['M'].value // 1024,
            parallelism=kdf_parameters['P'].value,
            version=kdf_parameters['V'].value
        )
''', '''        variant = argon2.low_level.Type.D
        if kdf_parameters['$UUID'].value == kdf_uuids['argon2id']:
            variant = argon2.low_level.Type.ID
        params = {name: kdf_parameters[name].value for name in ('S', 'I', 'M', 'P', 'V')}
        transformed_key = argon2.low_level.hash_secret_raw(
            key_composite, params['S'], params['I'], params['M'] // 1024, params['P'], 32, variant, params['V']
        )
'''))
# ---------------------------------------------------------------- C07
M("C07", "norewind", (CO, '''            if hasattr(keyfile, "seekable") and keyfile.seekable():
                keyfile.seek(0)
''', ''))
M("C07", "strip", (CO, "                    keyfile_composite = hashlib.sha256(keyfile_bytes).digest()", "                    keyfile_composite = hashlib.sha256(keyfile_bytes.rstrip()).digest()"))
M("C07", "hash-skip", (CO, '                assert hash == hash_computed, "Keyfile has invalid hash"\n', '                if len(hash) == 4:\n                    assert hash == hash_computed, "Keyfile has invalid hash"\n'))
M("C07", "hash-drop", (CO, '                assert hash == hash_computed, "Keyfile has invalid hash"\n', ''))
M("C07", "hash-2", (CO, "digest()[:4]\n", "digest()[:2]\n"), (CO, "assert hash == hash_computed", "assert hash[:2] == hash_computed"))
M("C07", "swap-len", (CO, "                elif len(keyfile_bytes) == 64 and is_hex:", "                elif len(keyfile_bytes) >= 64 and is_hex:"))
M("C07", "any-hex", (CO, "                elif len(keyfile_bytes) == 64 and is_hex:", "                elif is_hex:"))
M("C07", "fromhex-ws", (CO, "                    codecs.decode(keyfile_bytes, 'hex')\n                    is_hex = True", "                    bytes.fromhex(keyfile_bytes.decode())\n                    is_hex = True"),
  (CO, "                    keyfile_composite = codecs.decode(keyfile_bytes, 'hex')\n", "                    keyfile_composite = bytes.fromhex(keyfile_bytes.decode())\n"))
M("C07", "read-cap", (CO, "                keyfile_bytes = f.read()", "                keyfile_bytes = f.read(4096)"))
M("C07", "v1-hex", (CO, "            if version.startswith('1.0'):", "            if version == '1.00':"))
M("C07", "no-unicode", (CO, "        except (etree.XMLSyntaxError, UnicodeDecodeError, AttributeError):", "        except (etree.XMLSyntaxError, UnicodeDecodeError):"))
M("C07", "text-mode", (CO, "            with open(keyfile, 'rb') as f:\n                keyfile_bytes = f.read()", "            with open(keyfile, 'r', encoding='latin-1') as f:\n                keyfile_bytes = f.read().encode('latin-1')"))
R("keyfile-helper", (CO, '''            try:
                try:
                    codecs.decode(keyfile_bytes, 'hex')
                    is_hex = True
                except ValueError:
                    is_hex = False
                # if the length is 32 bytes we assume it is the key
                if len(keyfile_bytes) == 32:
                    keyfile_composite = keyfile_bytes
                # if the length is 64 bytes we assume the key is hex encoded
                elif len(keyfile_bytes) == 64 and is_hex:
                    keyfile_composite = codecs.decode(keyfile_bytes, 'hex')
                # anything else may be a file to hash for the key
                else:
                    keyfile_composite = hashlib.sha256(keyfile_bytes).digest()
            except:
                raise IOError('Could not read keyfile')
''', '''            try:
                keyfile_composite = _plain_key(keyfile_bytes)
            except:
                raise IOError('Could not read keyfile')
'''), (CO, '''def compute_key_composite(password''', '''def _plain_key(data):
    size = len(data)
    if size == 32:
        return data
    if size == 64:
        try:
            return codecs.decode(data, 'hex')
        except ValueError:
            pass
    return hashlib.sha256(data).digest()


def compute_key_composite(password'''))
R("keyfile-read", (CO, '''        if hasattr(keyfile, "read"):
            if hasattr(keyfile, "seekable") and keyfile.seekable():
                keyfile.seek(0)
            keyfile_bytes = keyfile.read()
        else:
            with open(keyfile, 'rb') as f:
                keyfile_bytes = f.read()
''', '''        keyfile_bytes = _read_all(keyfile)
'''), (CO, '''def compute_key_composite(password''', '''def _read_all(source):
    if not hasattr(source, "read"):
        f = open(source, 'rb')
        try:
            return f.read()
        finally:
            f.close()
    if hasattr(source, "seekable") and source.seekable():
        source.seek(0)
    return source.read()


def compute_key_composite(password'''))
R("keyfile-raise", (CO, '''                assert hash == hash_computed, "Keyfile has invalid hash"
''', '''                if hash_computed != hash:
                    raise ValueError("Keyfile has invalid hash")
'''))
# ---------------------------------------------------------------- C28
M("C28", "cred-always-payload", (K3, '    "payload" / If(this._._.decrypt,\n        UnpackedPayload(\n            Switch(\n                this._.header.value.dynamic_header.cipher_id.data,\n                {\'aes256\': AES256Payload(GreedyBytes),\n                 \'chacha20\': ChaCha20Payload(GreedyBytes),\n                 \'twofish\': TwoFishPayload(GreedyBytes),\n                 }\n            )\n        )\n    ),',
  '    "payload" / IfThenElse(this._._.decrypt,\n        UnpackedPayload(\n            Switch(\n                this._.header.value.dynamic_header.cipher_id.data,\n                {\'aes256\': AES256Payload(GreedyBytes),\n                 \'chacha20\': ChaCha20Payload(GreedyBytes),\n                 \'twofish\': TwoFishPayload(GreedyBytes),\n                 }\n            )\n        ),\n        GreedyBytes\n    ),'))
M("C28", "guard-gone", (PK, '''        if self.kdbx.body.payload is None:
            raise ValueError("Database is not decrypted")
        else:
            return self.kdbx.body.payload
''', '''        return self.kdbx.body.payload
'''))
M("C28", "read-ignores", (PK, '''                self.kdbx = KDBX.parse_stream(
                    filename,
                    password=password,
                    keyfile=keyfile,
                    transformed_key=transformed_key,
                    decrypt=decrypt
''', '''                self.kdbx = KDBX.parse_stream(
                    filename,
                    password=password,
                    keyfile=keyfile,
                    transformed_key=transformed_key,
                    decrypt=True
'''))
M("C28", "hash-only-decrypt", (K4, '''    "sha256" / Checksum(
        Bytes(32),
        lambda data: hashlib.sha256(data).digest(),
        this._.header.data,
        # exception=HeaderChecksumError,
    ),
''', '''    "sha256" / IfThenElse(this._._.decrypt, Checksum(
        Bytes(32),
        lambda data: hashlib.sha256(data).digest(),
        this._.header.data,
        # exception=HeaderChecksumError,
    ), Bytes(32)),
'''))
# ---------------------------------------------------------------- C09
M("C09", "signed", (K4, "             0x0C: Int32sl,\n             0x0D: Int64sl,", "             0x0C: Int32ul,\n             0x0D: Int64ul,"))
M("C09", "bool", (K4, "             0x08: Flag,", "             0x08: Byte,"))
M("C09", "str-type", (K4, "             0x18: GreedyString('utf-8')", "             0x18: GreedyBytes"))
M("C09", "stream-id", (CO, "     'salsa20': 2,\n     'chacha20': 3,", "     'chacha20': 3,\n     'salsa20': 4,"))
M("C09", "comment", (K3, "         'comment': 1,\n", ""))
M("C09", "custom-data", (K4, "         'public_custom_data': 12\n", "         'public_custom_data': 13\n"))
M("C09", "argon2id", (K4, "    'argon2id': b'\\x9e)\\x8b\\x19V\\xdbGs\\xb2=\\xfc>\\xc6\\xf0\\xa1\\xe6',", "    'argon2id': b'\\x9e)\\x8b\\x19V\\xdbGs\\xb2=\\xfc>\\xc6\\xf0\\xa1\\xe7',"))
M("C09", "width", (K3, '    "data" / Prefixed(\n        Int16ul,', '    "data" / Prefixed(\n        Int32ul,'))
# ---------------------------------------------------------------- C15 C16 C17 searches
CRITLOOP = '''            # build xpath to filter results with specified attributes
            for key, value in kwargs.items():
                if key not in keys_xp[regex]:
                    raise TypeError('Invalid keyword argument "{}"'.format(key))
                if value is not None:
                    xp += fill(keys_xp[regex][key], value, flags=flags)
'''
M("C15", "falsy-ignored", (PK, "                if value is not None:\n                    xp += fill(keys", "                if value:\n                    xp += fill(keys"))
M("C15", "regex-password", (XP, "'password': '/String/Key[text()=\"Password\"]/../Value[re:test(", "'password': '/String/Key[text()=\"UserName\"]/../Value[re:test("))
M("C15", "regex-flags", (XP, "        'url': '/String/Key[text()=\"URL\"]/../Value[re:test(text(), \"{}\", \"{flags}\")]/../..',", "        'url': '/String/Key[text()=\"URL\"]/../Value[re:test(text(), \"{}\", \"\")]/../..',"))
M("C15", "tags-or", (PK, "kwargs['tags'] = ' and '.join(", "kwargs['tags'] = ' or '.join("))
M("C15", "unknown-none", (PK, CRITLOOP, '''            for key, value in kwargs.items():
                if value is None or key not in keys_xp[regex]:
                    continue
                xp += fill(keys_xp[regex][key], value, flags=flags)
'''))
M("C15", "string-any", (PK, '''                for key, value in (kwargs['string'] or {}).items():
                    xp += fill(keys_xp[regex]['string'], key, value, flags=flags)
''', '''                for key, value in (kwargs['string'] or {}).items():
                    xp_string = fill(keys_xp[regex]['string'], key, value, flags=flags)
                if kwargs['string']:
                    xp += xp_string
'''))
M("C15", "string-two-fields", (XP, "'string': '/String/Key[.=\"{}\"]/../Value[re:test(text(), \"{}\", \"{flags}\")]/../..'", "'string': '[String/Key=\"{}\"]/String/Value[re:test(text(), \"{}\", \"{flags}\")]/../..'"))
M("C15", "window-sequence", (XP, "        'autotype_window': '/AutoType/Association/Window[re:test", "        'autotype_window': '/AutoType/Association/KeystrokeSequence[re:test"))
M("C15", "uuid-hex", (PK, "kwargs['uuid'] = base64.b64encode(kwargs['uuid'].bytes).decode('utf-8')", "kwargs['uuid'] = base64.b64encode(kwargs['uuid'].bytes_le).decode('utf-8')"))
M("C15", "group-notes", (XP, "'notes': '/Notes[re:test(", "'notes': '/Name[re:test("))
M("C15", "strip", (PK, "                    xp += fill(keys_xp[regex][key], value, flags=flags)\n\n        res", "                    xp += fill(keys_xp[regex][key], str(value).strip(), flags=flags)\n\n        res"))
M("C15", "starts", (XP, "        'title': '/String/Key[text()=\"Title\"]/../Value[.=\"{}\"]/../..',", "        'title': '/String/Key[text()=\"Title\"]/../Value[starts-with(., \"{}\")]/../..',"))
M("C16", "raw-format", (PK, "xp += fill(path_xp[regex]['group'], group, flags=flags)", "xp += path_xp[regex]['group'].format(group, flags=flags)"))
M("C16", "raw-regex", (PK, "                    xp += fill(keys_xp[regex][key], value, flags=flags)\n\n        res", "                    xp += fill(keys_xp[regex][key], value, flags=flags) if not regex else keys_xp[regex][key].format(value, flags=flags)\n\n        res"))
M("C16", "drop-quotes", (XP, '''    if '"' not in value:
        return '"' + value + '"'
    return 'concat("' + '", \\'"\\', "'.join(value.split('"')) + '")'
''', '''    return '"' + value.replace('"', '') + '"'
'''))
M("C16", "entity", (XP, '''    if '"' not in value:
        return '"' + value + '"'
    return 'concat("' + '", \\'"\\', "'.join(value.split('"')) + '")'
''', '''    return '"' + value.replace('"', '&quot;') + '"'
'''))
M("C16", "single-quote", (XP, '''    return 'concat("' + '", \\'"\\', "'.join(value.split('"')) + '")'
''', '''    return "'" + value + "'"
'''))
M("C16", "concat-first", (XP, '''    return 'concat("' + '", \\'"\\', "'.join(value.split('"')) + '")'
''', '''    return 'concat("' + '", \\'"\\', "'.join(value.split('"', 1)) + '")'
'''))
M("C16", "tags-raw", (PK, "contains(text(),{quote(t)})", "contains(text(),\"{t}\")"))
M("C16", "field-raw", (EN, "field = self._xpath(fill('String/Key[text()=\"{}\"]/../Value', key), history=True, first=True)", "field = self._xpath('String/Key[text()=\"{}\"]/../Value'.format(key), history=True, first=True)"))
M("C16", "prop-raw", (EN, "prop = self._xpath(fill('String/Key[text()=\"{}\"]/..', key), first=True)", "prop = self._xpath(f'String/Key[text()=\"{key}\"]/..', first=True)"))
M("C17", "history-parent-binary", (PK, "            prefix += '[not(ancestor::History)]'", "            prefix += '[not(parent::History)]'"))
M("C17", "history-lost", (PK, "        if not history:\n            prefix +=", "        if not history and tree is None:\n            prefix +="))
M("C17", "nonrecursive-groups", (PK, "        prefix = '//Group' if recursive else '/Group'", "        prefix = '//Group' if recursive or group is None else '/Group' if kwargs else '//Group'"))
M("C17", "last-match", (PK, "            res = res[0] if res else None\n", "            res = res[-1] if res else None\n"))
M("C17", "path-anywhere", (PK, "            xp += '/KeePassFile/Root/Group'\n", "            xp += '/KeePassFile/Root/Group' if len(path) < 3 else '/KeePassFile/Root/'\n"))
M("C17", "path-regex-last", (PK, "                xp += fill(path_xp[regex]['entry'], element, flags=flags)", "                xp += fill(path_xp[False]['entry'], element, flags=flags)"))
M("C17", "path-list", (PK, "            first = True\n\n            xp += '/Kee", "            first = not regex\n\n            xp += '/Kee"))
M("C17", "tree-ignored", (PK, "            tree=tree._element if tree else None,\n            first=first,", "            tree=tree._element if tree and not history else None,\n            first=first,"))
M("C17", "absolute", (PK, "            if tree is not None:\n                xp += '.'\n", "            if tree is not None and not first:\n                xp += '.'\n"))
M("C17", "attachments-all", (PK, "return self.find_attachments(filename='.*', regex=True)", "return self.find_attachments(filename='.*', regex=True, history=True)"))
M("C17", "first-none", (PK, "            res = res[0] if res else None\n", "            res = res[0] if len(res) == 1 else None\n"))
M("C17", "wrong-kind", (PK, "        prefix = '//Binary[Key]' if recursive else '/Binary'", "        prefix = '//Binary[Key]' if recursive else '//Binary'"))
R("find-prefix-helper", (PK, '''        prefix = '//Group' if recursive else '/Group'
        res = self._find(prefix, group_xp, path=path, tree=group, **kwargs)
        return res
''', '''        return self._find(self._prefix('Group', recursive), group_xp, path=path, tree=group, **kwargs)

    @staticmethod
    def _prefix(tag, recursive):
        if recursive:
            return '//' + tag
        return '/' + tag
'''))
R("find-parts-join", (PK, CRITLOOP, '''            parts = []
            templates = keys_xp[regex]
            for key in kwargs:
                if key not in templates:
                    raise TypeError(f'Invalid keyword argument "{key}"')
                if kwargs[key] is None:
                    continue
                parts.append(fill(templates[key], kwargs[key], flags=flags))
            xp += ''.join(parts)
'''))
R("find-split-path", (PK, '''        if path is not None:

            first = True

            xp += '/KeePassFile/Root/Group'
            # split provided path into group and element
            group_path = path[:-1]
            element = path[-1] if len(path) > 0 else ''
            # build xpath from group_path and element
            for group in group_path:
                xp += fill(path_xp[regex]['group'], group, flags=flags)
            if 'Entry' in prefix:
                xp += fill(path_xp[regex]['entry'], element, flags=flags)
            elif element and 'Group' in prefix:
                xp += fill(path_xp[regex]['group'], element, flags=flags)
''', '''        if path is not None:

            first = True
            xp = self._path_query(path, path_xp[regex], 'Entry' in prefix, flags)
'''), (PK, '''    def _can_be_moved_to_recyclebin(self, entry_or_group):
''', '''    def _path_query(self, path, templates, is_entry, flags):
        query = '/KeePassFile/Root/Group'
        if len(path) > 0:
            *parents, last = path
        else:
            parents, last = [], ''
        for name in parents:
            query = query + fill(templates['group'], name, flags=flags)
        if is_entry:
            return query + fill(templates['entry'], last, flags=flags)
        if last:
            query = query + fill(templates['group'], last, flags=flags)
        return query

    def _can_be_moved_to_recyclebin(self, entry_or_group):
'''))
R("xpath-comprehension", (PK, '''        res = []
        for e in elements:
            if cast:
                if e.tag == 'Entry':
                    res.append(Entry(element=e, kp=self))
                elif e.tag == 'Group':
                    res.append(Group(element=e, kp=self))
                elif e.tag == 'Binary' and e.getparent().tag == 'Entry':
                    res.append(Attachment(element=e, kp=self))
                else:
                    raise Exception('Could not cast element {}'.format(e))
            else:
                res.append(e)

        # return first object in list or None
        if first:
            res = res[0] if res else None

        return res
''', '''        res = [self._cast(e) for e in elements] if cast else list(elements)

        # return first object in list or None
        if not first:
            return res
        return next(iter(res), None)

    def _cast(self, element):
        if element.tag == 'Entry':
            return Entry(element=element, kp=self)
        if element.tag == 'Group':
            return Group(element=element, kp=self)
        if element.tag == 'Binary' and element.getparent().tag == 'Entry':
            return Attachment(element=element, kp=self)
        raise Exception('Could not cast element {}'.format(element))
'''))
R("xpath-templates-nested", (XP, "        'title': '/String/Key[text()=\"Title\"]/../Value[.=\"{}\"]/../..',", "        'title': '[String[Key=\"Title\"][Value=\"{}\"]]',"),
  (XP, "        'autotype_window': '/AutoType/Association/Window[.=\"{}\"]/../../..',", "        'autotype_window': '[AutoType/Association/Window[.=\"{}\"]]',"))
R("quote-either", (XP, '''    if '"' not in value:
        return '"' + value + '"'
''', '''    if '"' not in value:
        return '"' + value + '"'
    if "'" not in value:
        return "'" + value + "'"
'''))
R("quote-comp", (XP, '''    return 'concat("' + '", \\'"\\', "'.join(value.split('"')) + '")'
''', '''    parts = ['"' + part + '"' for part in value.split('"')]
    return 'concat(' + ", '\\"', ".join(parts) + ')'
'''))
R("find-first-in-xpath", (PK, '''        elements = tree.xpath(
            xpath_str, namespaces={'re': 'http://exslt.org/regular-expressions'}
        )
''', '''        namespaces = {'re': 'http://exslt.org/regular-expressions'}
        elements = tree.xpath(xpath_str, namespaces=namespaces)
        if first:
            elements = elements[:1]
'''))
R("find-string-items", (PK, '''            if 'string' in kwargs:
                for key, value in (kwargs['string'] or {}).items():
                    xp += fill(keys_xp[regex]['string'], key, value, flags=flags)

                kwargs.pop('string')
''', '''            strings = kwargs.pop('string', None) or {}
            for key in strings:
                xp += fill(keys_xp[regex]['string'], key, strings[key], flags=flags)
'''))
R("templates-generated", (XP, '''group_xp = {
    False: {
        'name': '/Name[.="{}"]/..',
        'uuid': '/UUID[.="{}"]/..',
        'notes': '/Notes[.="{}"]/..',
    },
    True: {
        'name': '/Name[re:test(text(), "{}", "{flags}")]/..',
        'uuid': '/UUID[.="{}"]/..',
        'notes': '/Notes[re:test(text(), "{}", "{flags}")]/..',
    }
}
''', '''EQUAL = '[.="{}"]'
MATCH = '[re:test(text(), "{}", "{flags}")]'

group_xp = {
    regex: {
        'name': '/Name' + test + '/..',
        'uuid': '/UUID' + EQUAL + '/..',
        'notes': '/Notes' + test + '/..',
    }
    for regex, test in ((False, EQUAL), (True, MATCH))
}
'''))
# ---------------------------------------------------------------- C32 C25
M("C32", "username-pw", (DP, "    return self.find_entries(\n        password=password,", "    return self.find_entries(\n        username=password,"))
M("C32", "no-flags", (DP, "        notes=notes,\n        regex=regex,\n        flags=flags,\n        group=group,\n        history=history,\n        first=first\n    )\n\ndef find_entries_by_title", "        notes=notes,\n        regex=regex,\n        group=group,\n        history=history,\n        first=first\n    )\n\ndef find_entries_by_title"))
M("C32", "history", (DP, "        url=url,\n        regex=regex,\n        flags=flags,\n        group=group,\n        history=history,", "        url=url,\n        regex=regex,\n        flags=flags,\n        group=group,\n        history=first,"))
M("C32", "default", (DP, "def find_entries_by_string(self, string, regex=False, flags=None,\n                            group=None, history=False", "def find_entries_by_string(self, string, regex=False, flags=None,\n                            group=None, history=True"))
M("C32", "group", (DP, "        name=group_name,\n        regex=regex,\n        flags=flags,\n        group=group,", "        name=group_name,\n        regex=regex,\n        flags=flags,\n        group=group if regex else None,"))
M("C32", "order", (DP, "def find_entries_by_uuid(self, uuid, regex=False, flags=None,\n                            group=None, history=False, first=False)", "def find_entries_by_uuid(self, uuid, regex=False, flags=None,\n                            history=False, group=None, first=False)"))
R("deprecated-kwargs", (DP, '''    return self.find_groups(
        name=group_name,
        regex=regex,
        flags=flags,
        group=group,
        first=first
    )
''', '''    options = dict(regex=regex, flags=flags, group=group, first=first)
    return self.find_groups(name=group_name, **options)
'''))
M("C25", "map-url", (PK, "            'A': 'url',\n            'N': 'notes',\n            'I': 'uuid',", "            'A': 'notes',\n            'N': 'url',\n            'I': 'uuid',"))
M("C25", "ref-map", (EN, "            'url': 'A',\n            'notes': 'N',", "            'url': 'U',\n            'notes': 'N',"))
M("C25", "no-nested", (PK, "wanted_value = self._deref(getattr(ref_entry, wanted_field) or '', parents + (ref,))", "wanted_value = getattr(ref_entry, wanted_field) or ''"))
M("C25", "swap", (PK, "        for ref, wanted_field, search_in, search_value in references:", "        for ref, search_in, wanted_field, search_value in references:"))
M("C25", "cycle", (PK, "parents + (ref,))", "(ref,))"))
M("C25", "none-or-empty", (PK, "            if ref_entry is None:\n                return None\n            if wanted", "            if ref_entry is None:\n                continue\n            if wanted"))
M("C25", "empty", (PK, "getattr(ref_entry, wanted_field) or ''", "getattr(ref_entry, wanted_field)"))
M("C25", "replace-once", (PK, "value = value.replace(ref, wanted_value)", "value = value.replace(ref, wanted_value, 1)"))
M("C25", "history", (PK, "ref_entry = self.find_entries(first=True, **{search_in: search_value})", "ref_entry = self.find_entries(first=True, history=True, **{search_in: search_value})"))
M("C25", "regex", (PK, "ref_entry = self.find_entries(first=True, **{search_in: search_value})", "ref_entry = self.find_entries(first=True, regex=True, **{search_in: search_value})"))
M("C25", "uuid-str", (PK, "wanted_value = ref_entry.uuid.hex.upper()", "wanted_value = str(ref_entry.uuid)"))
M("C25", "pattern", (PK, "r'({REF:([TUPANI])@([TUPANI]):([^}]+)})'", "r'({REF:([TUPANI])@([TUPANI]):(\\S+?)})'"))
M("C25", "greedy", (PK, "r'({REF:([TUPANI])@([TUPANI]):([^}]+)})'", "r'({REF:([TUPANI])@([TUPANI]):(.+)})'"))
M("C25", "malformed", (PK, '''                try:
                    search_value = uuid.UUID(search_value)
                except ValueError:
                    return None
''', '''                search_value = uuid.UUID(search_value)
'''))
M("C25", "deref-attr", (EN, "return self._kp.deref(getattr(self, attribute))", "return self._kp.deref(self._get_string_field(attribute.capitalize()))"))
R("deref-sub", (PK, '''        references = set(re.findall(r'({REF:([TUPANI])@([TUPANI]):([^}]+)})', value))
        if not references:
            return value
''', '''        pattern = re.compile(r'({REF:([TUPANI])@([TUPANI]):([^}]+)})')
        references = {match.groups() for match in pattern.finditer(value)}
        if len(references) == 0:
            return value
'''))
R("deref-helper", (PK, '''            ref_entry = self.find_entries(first=True, **{search_in: search_value})
            if ref_entry is None:
                return None
            if wanted_field == 'uuid':
                wanted_value = ref_entry.uuid.hex.upper()
            else:
                wanted_value = self._deref(getattr(ref_entry, wanted_field) or '', parents + (ref,))
            if wanted_value is None:
                return None
            value = value.replace(ref, wanted_value)
        return value
''', '''            criteria = {search_in: search_value}
            wanted_value = self._wanted(self.find_entries(first=True, **criteria), wanted_field, [*parents, ref])
            if wanted_value is None:
                return None
            value = wanted_value.join(value.split(ref))
        return value

    def _wanted(self, entry, field, parents):
        if entry is None:
            return None
        if field == 'uuid':
            return entry.uuid.hex.upper()
        text = getattr(entry, field)
        return self._deref('' if text is None else text, tuple(parents))
'''))
R("ref-fstring", (EN, "        return '{{REF:{}@I:{}}}'.format(attribute_to_field[attribute], self.uuid.hex.upper())", "        field = attribute_to_field[attribute]\n        identifier = self.uuid.hex.upper()\n        return f'{{REF:{field}@I:{identifier}}}'"))
# ---------------------------------------------------------------- C13
M("C13", "entries-lazy", (PK, "        return self.find_entries()\n", "        if getattr(self, '_all', None) is None:\n            self._all = self.find_entries()\n        return self._all\n"))
M("C13", "root-hasattr", (PK, "        return self.find_groups(path='', first=True)\n", "        if not hasattr(self, '_root'):\n            self._root = self.find_groups(path='', first=True)\n        return self._root\n"))
M("C13", "name-snapshot", (GR, "            self._element = element\n", "            self._element = element\n            self._name = element.findtext('Name')\n"),
  (GR, "        return self._get_subelement_text('Name')", "        return getattr(self, '_name', None) or self._get_subelement_text('Name')"))
M("C13", "cached-data", (AT, "    data = binary\n", "    @functools.cached_property\n    def data(self):\n        return self.binary\n"), (AT, "from . import entry\n", "import functools\n\nfrom . import entry\n"))
M("C13", "lru-decode", (PK, "    def find_entries(self, recursive=True, path=None, group=None, **kwargs):", "    @functools.lru_cache(maxsize=None)\n    def find_entries(self, recursive=True, path=None, group=None, **kwargs):"), (PK, "import base64\n", "import base64\nimport functools\n"))
M("C13", "module-cache", (PK, '''        elements = tree.xpath(
            xpath_str, namespaces={'re': 'http://exslt.org/regular-expressions'}
        )
''', '''        cache_key = (id(tree), xpath_str)
        if cache_key not in _QUERIES:
            _QUERIES[cache_key] = tree.xpath(
                xpath_str, namespaces={'re': 'http://exslt.org/regular-expressions'}
            )
        elements = _QUERIES[cache_key]
'''), (PK, "class PyKeePass:\n", "_QUERIES = {}\n\n\nclass PyKeePass:\n"))
M("C13", "default-arg-cache", (GR, "        return self._get_subelement_text('Notes')", "        return self._note()\n\n    def _note(self, memo={}):\n        if self._element not in memo:\n            memo[self._element] = self._get_subelement_text('Notes')\n        return memo[self._element]"))
M("C13", "kp-dict", (PK, "        elem = self._xpath('/KeePassFile/Meta/DatabaseName', first=True)\n        return elem.text", "        if 'name' not in self._memo:\n            elem = self._xpath('/KeePassFile/Meta/DatabaseName', first=True)\n            self._memo['name'] = elem.text\n        return self._memo['name']"),
  (PK, "        self.read(\n", "        self._memo = {}\n        self.read(\n"))
M("C13", "field-class-cache", (EN, "    def _get_string_field(self, key):", "    _fields = {}\n\n    def _get_string_field(self, key):"),
  (EN, "        field = self._xpath(fill('String/Key[text()=\"{}\"]/../Value', key), history=True, first=True)\n        if field is not None:\n            return field.text", "        if (self._element, key) not in self._fields:\n            self._fields[self._element, key] = self._xpath(fill('String/Key[text()=\"{}\"]/../Value', key), history=True, first=True)\n        field = self._fields[self._element, key]\n        if field is not None:\n            return field.text"))
M("C13", "version-snapshot", (PK, '''        return (
            self.kdbx.header.value.major_version,
            self.kdbx.header.value.minor_version
        )
''', '''        if self._version is None:
            self._version = (
                self.kdbx.header.value.major_version,
                self.kdbx.header.value.minor_version
            )
        return self._version
'''), (PK, "        self.read(\n", "        self._version = None\n        self.read(\n"))
R("lru-quote", (XP, "def quote(value):", "import functools\n\n\n@functools.lru_cache(maxsize=100)\ndef quote(value):"))
R("query-counter", (PK, "        elements = tree.xpath(\n", "        PyKeePass._queries += 1\n        elements = tree.xpath(\n"), (PK, "    # TODO: raise, no filename provided, database not open\n\n    def __init__", "    _queries = 0\n\n    def __init__"))
R("last-query", (PK, "        elements = tree.xpath(\n", "        self._last_query = xpath_str\n        elements = tree.xpath(\n"))
R("namespace-global", (PK, "            xpath_str, namespaces={'re': 'http://exslt.org/regular-expressions'}\n", "            xpath_str, namespaces=NAMESPACES\n"), (PK, "class PyKeePass:\n", "NAMESPACES = {'re': 'http://exslt.org/regular-expressions'}\n\n\nclass PyKeePass:\n"))
R("tree-field", (PK, "        return self.payload.xml\n", "        payload = self.payload\n        return payload['xml']\n"))

# ---------------------------------------------------------------- C12
M("C12", "encode-in-place", (CO, "        tree_copy = deepcopy(tree)\n", "        tree_copy = tree\n"))
M("C12", "encode-shallow", (CO, "        tree_copy = deepcopy(tree)\n", "        import copy\n        tree_copy = copy.copy(tree)\n"))
M("C12", "dd-pop", (CO, "        for key in obj:\n            if key in self.lump:\n                l += obj[key]",
                    "        for key in list(obj):\n            if key in self.lump:\n                l += obj.pop(key)"))
M("C12", "dd-alias", (CO, """        l = []
        for key in obj:
            if key in self.lump:
                l += obj[key]
            else:
                l.append(obj[key])
""", """        l = []
        for key in obj:
            if key in self.lump:
                items = obj[key]
                items[:0] = l
                l = items
            else:
                l.append(obj[key])
"""))
M("C12", "xml-indent", (CO, "        return etree.tostring(tree)\n", "        etree.cleanup_namespaces(tree)\n        return etree.tostring(tree)\n"))
M("C12", "export-strips", (PK, """        return etree.tostring(
            self.tree,
            pretty_print=True,""", """        for elem in self.tree.iter('Times'):
            if len(elem) == 0:
                elem.getparent().remove(elem)
        return etree.tostring(
            self.tree,
            pretty_print=True,"""))
M("C12", "export-indent", (PK, """        return etree.tostring(
            self.tree,
            pretty_print=True,""", """        etree.indent(self.tree)
        return etree.tostring(
            self.tree,
            pretty_print=True,"""))
M("C12", "get-creates", (EN, """        if self._element.find('History') is not None:
            return [HistoryEntry(element=x, kp=self._kp) for x in self._element.find('History').findall('Entry')]
        else:
            return []
""", """        history = self._element.find('History')
        if history is None:
            history = E.History()
            self._element.append(history)
        return [HistoryEntry(element=x, kp=self._kp) for x in history.findall('Entry')]
"""))
M("C12", "get-normalises", (EN, """        val = self._get_subelement_text('Tags')
        return val.replace(',', ';').split(';') if val else []
""", """        elem = self._element.find('Tags')
        if elem is None or not elem.text:
            return []
        elem.text = elem.text.replace(',', ';')
        return elem.text.split(';')
"""))
M("C12", "times-default", (BE, """        if times is not None:
            prop = times.find(prop)
            if prop is not None and prop.text is not None:
                return self._kp._decode_time(prop.text)
""", """        if times is not None:
            elem = times.find(prop)
            if elem is None:
                elem = etree.SubElement(times, prop)
            if elem.text is not None:
                return self._kp._decode_time(elem.text)
"""))
M("C12", "save-drops-raw", (PK, """        if not filename:
            filename = self.filename

        if hasattr(filename, "write"):
            KDBX.build""", """        if not filename:
            filename = self.filename

        self.kdbx.header.pop('offset1', None)
        if hasattr(filename, "write"):
            KDBX.build"""))
M("C12", "kdf-pop", (K4, "    elif kdf_parameters['$UUID'].value == kdf_uuids['aeskdf']:", "    elif kdf_parameters.pop('$UUID').value == kdf_uuids['aeskdf']:"))
M("C12", "keyfile-rw", (CO, "            with open(keyfile, 'rb') as f:", "            with open(keyfile, 'r+b') as f:"))
M("C12", "deref-writes", (EN, "        return self._kp.deref(getattr(self, attribute))\n", """        value = self._kp.deref(getattr(self, attribute))
        if isinstance(value, str) and attribute == 'notes':
            self.notes = value
        return value
"""))
M("C12", "autotype-default", (EN, "        enabled = self._element.find('AutoType/Enabled')\n        if enabled.text is not None:\n            return", "        enabled = self._element.find('AutoType/Enabled')\n        if enabled.text == '':\n            enabled.text = None\n        if enabled.text is not None:\n            return"))
M("C12", "filename-pop", (AT, "        return self._element.find('Key').text\n", "        key = self._element.find('Key')\n        self._element.insert(0, key)\n        return key.text\n"))
M("C12", "dump-backup", (PK, "        with open(filename, 'wb') as f:\n            f.write(self.xml())", "        import os\n        if os.path.exists(filename):\n            os.replace(filename, str(filename) + '.bak')\n        with open(filename, 'wb') as f:\n            f.write(self.xml())"))
R("encode-roundtrip", (CO, "        tree_copy = deepcopy(tree)\n", "        tree_copy = etree.ElementTree(deepcopy(tree.getroot()))\n"))
R("encode-fromstring", (CO, "        tree_copy = deepcopy(tree)\n", "        tree_copy = etree.parse(io.BytesIO(etree.tostring(tree)))\n"))
R("export-tempcopy", (PK, """        return etree.tostring(
            self.tree,
            pretty_print=True,""", """        tree = deepcopy(self.tree)
        return etree.tostring(
            tree,
            pretty_print=True,"""), (PK, "import base64\n", "import base64\nfrom copy import deepcopy\n"))
R("dd-items", (CO, """        l = []
        for key in obj:
            if key in self.lump:
                l += obj[key]
            else:
                l.append(obj[key])
""", """        l = []
        for key, item in obj.items():
            if key in self.lump:
                l.extend(item)
            else:
                l.append(item)
"""))
R("dump-pathlib", (PK, "        with open(filename, 'wb') as f:\n            f.write(self.xml())", "        Path(filename).write_bytes(self.xml())"))

# ---------------------------------------------------------------- C31
PARSER = "        parser = etree.XMLParser(remove_blank_text=True)\n"
M("C31", "entities", (CO, PARSER, "        parser = etree.XMLParser(remove_blank_text=True, resolve_entities=True)\n"))
M("C31", "load-dtd", (CO, PARSER, "        parser = etree.XMLParser(remove_blank_text=True, load_dtd=True, huge_tree=True)\n"))
M("C31", "opts-dict", (CO, PARSER, "        opts = dict(remove_blank_text=True)\n        opts['attribute_defaults'] = True\n        parser = etree.XMLParser(**opts)\n"))
M("C31", "xinclude", (CO, "        return etree.parse(io.BytesIO(data), parser)\n", "        tree = etree.parse(io.BytesIO(data), parser)\n        tree.xinclude()\n        return tree\n"))
M("C31", "keyfile-parser", (CO, "            tree = etree.fromstring(keyfile_bytes)\n", "            tree = etree.fromstring(keyfile_bytes, etree.XMLParser(resolve_entities=True, no_network=False))\n"))
M("C31", "sidecar", (PK, """        try:
            if hasattr(filename, "read"):
                self.kdbx""", """        if keyfile is None and not hasattr(filename, "read"):
            sidecar = Path(filename).with_suffix('.keyx')
            if sidecar.exists():
                with open(sidecar, 'rb') as f:
                    logger.debug('%d bytes', len(f.read()))
        try:
            if hasattr(filename, "read"):
                self.kdbx"""))
M("C31", "keyfile-eval", (CO, "                keyfile_composite = base64.b64decode(data_element.text)\n", "                text = data_element.text\n                keyfile_composite = base64.b64decode(eval(text) if text[:2] == \"b'\" else text)\n"))
M("C31", "keyfile-ref", (CO, "            data_element = tree.find('Key/Data')\n", "            data_element = tree.find('Key/Data')\n            if data_element.get('File'):\n                with open(data_element.get('File'), 'rb') as f:\n                    data_element.text = f.read()\n"))
M("C31", "default-parser", (CO, "log = logging.getLogger(__name__)\n", "log = logging.getLogger(__name__)\netree.set_default_parser(etree.XMLParser(resolve_entities=True))\n"))
R("parser-hardened", (CO, PARSER, "        parser = etree.XMLParser(remove_blank_text=True, resolve_entities=False, no_network=True, load_dtd=False)\n"))
R("parser-helper", (CO, PARSER + "        return etree.parse(io.BytesIO(data), parser)\n", "        return etree.parse(io.BytesIO(data), self.parser())\n\n    @staticmethod\n    def parser():\n        return etree.XMLParser(remove_blank_text=True)\n"))
R("keyfile-pathlib", (CO, "            with open(keyfile, 'rb') as f:\n                keyfile_bytes = f.read()\n", "            from pathlib import Path\n            keyfile_bytes = Path(keyfile).read_bytes()\n"))
R("read-open", (PK, """                self.kdbx = KDBX.parse_file(
                    filename,
                    password=password,
                    keyfile=keyfile,
                    transformed_key=transformed_key,
                    decrypt=decrypt
                )
""", """                with open(filename, 'rb') as f:
                    self.kdbx = KDBX.parse_stream(
                        f,
                        password=password,
                        keyfile=keyfile,
                        transformed_key=transformed_key,
                        decrypt=decrypt
                    )
"""))
R("read-bytes", (PK, """                self.kdbx = KDBX.parse_file(
                    filename,
                    password=password,
                    keyfile=keyfile,
                    transformed_key=transformed_key,
                    decrypt=decrypt
                )
""", """                self.kdbx = KDBX.parse(
                    Path(filename).read_bytes(),
                    password=password,
                    keyfile=keyfile,
                    transformed_key=transformed_key,
                    decrypt=decrypt
                )
"""))

# ---------------------------------------------------------------- C13, more
M("C13", "partial-invalidation", (PK, "        return self.find_entries()\n", "        if self._entries is None:\n            self._entries = self.find_entries()\n        return self._entries\n"),
  (PK, "        # only remember these once the database could be read\n", "        self._entries = None\n        # only remember these once the database could be read\n"),
  (PK, "        entries = self.find_entries(\n", "        self._entries = None\n        entries = self.find_entries(\n"))
M("C13", "global-name", (PK, "        elem = self._xpath('/KeePassFile/Meta/DatabaseDescription', first=True)\n        return elem.text",
   "        global _DESC\n        if _DESC is None:\n            _DESC = self._xpath('/KeePassFile/Meta/DatabaseDescription', first=True)\n        return _DESC.text"), (PK, "class PyKeePass:\n", "_DESC = None\n\n\nclass PyKeePass:\n"))
M("C13", "class-attr", (PK, "        elem = self._xpath('/KeePassFile/Meta/DefaultUserName', first=True)\n        return elem.text",
   "        if getattr(PyKeePass, '_user', None) is None:\n            PyKeePass._user = self._xpath('/KeePassFile/Meta/DefaultUserName', first=True)\n        return PyKeePass._user.text"))
M("C13", "bin-memo", (PK, "            binaries = []\n", "            binaries = self._bins = getattr(self, '_bins', [])\n            if binaries:\n                return binaries\n"))
M("C13", "wrapper-times", (BE, "        times = self._element.find('Times')\n        if times is not None:\n            prop = times.find(prop)\n            if prop is not None and prop.text is not None:", "        if not hasattr(self, '_times'):\n            self._times = self._element.find('Times')\n        times = self._times\n        if times is not None:\n            prop = times.find(prop)\n            if prop is not None and prop.text is not None:"))
M("C13", "init-snapshot", (PK, "        self.read(\n            filename=filename,", "        self._info = None\n        self.read(\n            filename=filename,"),
  (PK, "            decrypt=decrypt\n        )\n\n    def __enter__", "            decrypt=decrypt\n        )\n        self._algorithm = self.kdbx.header.value.dynamic_header.cipher_id.data\n\n    def __enter__"),
  (PK, "        return self.kdbx.header.value.dynamic_header.cipher_id.data\n", "        return self._algorithm\n"))
R("version-reset", (PK, """        return (
            self.kdbx.header.value.major_version,
            self.kdbx.header.value.minor_version
        )
""", """        if self._version is None:
            self._version = (
                self.kdbx.header.value.major_version,
                self.kdbx.header.value.minor_version
            )
        return self._version
"""), (PK, "        # only remember these once the database could be read\n", "        self._version = None\n        # only remember these once the database could be read\n"))
R("version-in-read", (PK, """        return (
            self.kdbx.header.value.major_version,
            self.kdbx.header.value.minor_version
        )
""", """        return self._version
"""), (PK, "        # only remember these once the database could be read\n", "        self._version = (\n            self.kdbx.header.value.major_version,\n            self.kdbx.header.value.minor_version\n        )\n        # only remember these once the database could be read\n"))
R("decode-memo", (PK, "    def _decode_time(self, text):\n", "    @staticmethod\n    @functools.lru_cache(maxsize=64)\n    def _b64(text):\n        return base64.b64decode(text)\n\n    def _decode_time(self, text):\n"), (PK, "import base64\n", "import base64\nimport functools\n"),
  (PK, "        recyclebin_uuid = uuid.UUID( bytes = base64.b64decode(elem.text) )\n", "        recyclebin_uuid = uuid.UUID( bytes = self._b64(elem.text) )\n"))
R("uuid-memo", (PK, "        recyclebin_uuid = uuid.UUID( bytes = base64.b64decode(elem.text) )\n", "        text = elem.text\n        if text not in _UUIDS:\n            _UUIDS[text] = uuid.UUID( bytes = base64.b64decode(text) )\n        recyclebin_uuid = _UUIDS[text]\n"), (PK, "class PyKeePass:\n", "_UUIDS = {}\n\n\nclass PyKeePass:\n"))
R("tag-field", (GR, "            self._element = element\n", "            self._element = element\n            self._tag = element.tag\n"))
# ---------------------------------------------------------------- secrets
M("C24", "query-raw", (PK, """        logger.debug('xpath query: ' + re.sub(r'"[^"]*"|\\'[^\\']*\\'', '"..."', xpath_str))""", "        logger.debug('xpath query: %s', xpath_str)"))
M("C24", "query-halfclean", (PK, """re.sub(r'"[^"]*"|\\'[^\\']*\\'', '"..."', xpath_str)""", """re.sub(r'Value\\[\\.="[^"]*"\\]', 'Value[...]', xpath_str)"""))
M("C24", "query-dots", (PK, """re.sub(r'"[^"]*"|\\'[^\\']*\\'', '"..."', xpath_str)""", """re.sub(r'"\\w*"|\\'\\w*\\'', '"..."', xpath_str)"""))
M("C24", "kwargs-error", (PK, "                    raise TypeError('Invalid keyword argument \"{}\"'.format(key))", "                    raise TypeError('Invalid keyword argument \"{}\" in {}'.format(key, kwargs))"))
M("C24", "add-entry-log", (PK, "            logger.debug('Creating a new entry')", "            logger.debug('Creating a new entry: %r', (title, username, password))"))
M("C24", "add-entry-locals", (PK, "            logger.debug('Creating a new entry')", "            logger.debug('Creating a new entry: %s', locals())"))
M("C24", "cred-msg", (PK, "raise CredentialsError(\"Invalid credentials\")", "raise CredentialsError(\"Invalid credentials: {!r}\".format(password))"))
M("C24", "cred-warn", (PK, "                raise CredentialsError(\"Invalid credentials\")", "                logger.warning('cannot unlock %s with %s', filename, (password, keyfile))\n                raise CredentialsError(\"Invalid credentials\")"))
M("C24", "kf-composite", (CO, "                assert hash == hash_computed, \"Keyfile has invalid hash\"", "                assert hash == hash_computed, \"Keyfile has invalid hash: {}\".format(keyfile_composite.hex())"))
M("C24", "kf-log", (CO, "        # otherwise, try to read plain keyfile\n        except (etree.XMLSyntaxError, UnicodeDecodeError, AttributeError):", "        # otherwise, try to read plain keyfile\n        except (etree.XMLSyntaxError, UnicodeDecodeError, AttributeError):\n            log.debug('not an XML key file: %r', keyfile_bytes[:16])"))
M("C24", "kf-version", (CO, "raise AttributeError(\"Invalid version in keyfile\")", "log.warning('key file %s', etree.tostring(tree))\n                raise AttributeError(\"Invalid version in keyfile\")"))
M("C24", "unprotect-log", (CO, "marked as protected, but could not unprotect\".format(tree.getpath(elem))", "marked as protected, but could not unprotect: {}\".format(tree.getpath(elem), elem.text)"))
M("C24", "unprotect-xml", (CO, "\"Element at {} marked as protected, but could not unprotect\".format(tree.getpath(elem))", "\"Element %s marked as protected, but could not unprotect\", etree.tostring(elem.getparent())"))
M("C24", "unpad-log", (CO, "log.debug(\"Decryption unpadding failed\")", "log.debug(\"Decryption unpadding failed: %r\", payload_data[-16:])"))
M("C24", "masterkey-log", (CO, "        payload_data = cipher.decrypt(payload_data)\n        # FIXME", "        log.debug('decrypting with %s', con.master_key.hex())\n        payload_data = cipher.decrypt(payload_data)\n        # FIXME"))
M("C24", "str-pw", (EN, "return 'Entry: \"{} ({})\"'.format(pathstr, self.username)", "return 'Entry: \"{} ({})\"'.format(pathstr, self.username or self.password)"))
M("C24", "hist-str", (EN, "        return 'HistoryEntry: {}'.format(pathstr)", "        return 'HistoryEntry: {} {}'.format(pathstr, self.custom_properties)"))
M("C24", "kp-repr", (PK, "    @property\n    def version(self):", "    def __repr__(self):\n        return 'PyKeePass({})'.format(', '.join('%s=%r' % x for x in self.__dict__.items()))\n\n    @property\n    def version(self):"))
M("C24", "kp-repr2", (PK, "    @property\n    def version(self):", "    def __repr__(self):\n        return 'PyKeePass(filename={!r}, password={!r})'.format(self.filename, self.password)\n\n    @property\n    def version(self):"))
M("C24", "prop-msg", (EN, "            raise AttributeError('No such key: {}'.format(key))", "            raise AttributeError('No such key: {} in {}'.format(key, self.custom_properties))"))
M("C24", "assert-val", (EN, "    def set_custom_property(self, key, value, protect=False):\n        assert key not in reserved_keys, '{} is a reserved key'.format(key)", "    def set_custom_property(self, key, value, protect=False):\n        assert key not in reserved_keys, 'cannot set {}={}'.format(key, value)"))
M("C24", "exists-msg", (PK, "                'An entry \"{}\" already exists in \"{}\"'.format(\n                    title, destination_group\n", "                'An entry \"{}\" already exists in \"{}\"'.format(\n                    (title, username, entries.password), destination_group\n"))
M("C24", "print-key", (PK, "        return self.kdbx.body.transformed_key\n", "        print('transformed key', self.kdbx.body.transformed_key.hex())\n        return self.kdbx.body.transformed_key\n"))
M("C24", "stderr-pw", (PK, "        self._password = password\n        self.credchange_date", "        sys.stderr.write('new password %s\\n' % password)\n        self._password = password\n        self.credchange_date"), (PK, "import shutil\n", "import shutil\nimport sys\n"))
M("C24", "autosave-xml", (PK, "            shutil.move(filename_tmp, filename)", "            shutil.move(filename_tmp, filename)\n            self.dump_xml(str(filename) + '.xml')"))
M("C24", "crash-dump", (PK, "            except Exception as e:\n                filename_tmp.unlink(missing_ok=True)", "            except Exception as e:\n                Path(str(filename) + '.crash').write_bytes(self.xml())\n                filename_tmp.unlink(missing_ok=True)"))
M("C24", "xml-debugfile", (CO, "        parser = etree.XMLParser(remove_blank_text=True)\n        return", "        parser = etree.XMLParser(remove_blank_text=True)\n        if log.isEnabledFor(logging.DEBUG):\n            with open('/tmp/payload.xml', 'wb') as f:\n                f.write(data)\n        return"))
M("C24", "kdbx-dbg", (PK, "        # only remember these once", "        logger.debug('parsed %s', self.kdbx)\n        # only remember these once"))
M("C24", "setter-log", (EN, "    @password.setter\n    def password(self, value):\n", "    @password.setter\n    def password(self, value):\n        logger.debug('password %s -> %s', self.password, value)\n"))
M("C24", "exc-attr", (PK, "                raise CredentialsError(\"Invalid credentials\")", "                raise CredentialsError(\"Invalid credentials\", password)"))
M("C24", "tk-log", (PK, "        if not filename:\n            filename = self.filename\n\n        if hasattr(filename, \"write\"):", "        if not filename:\n            filename = self.filename\n        logger.info('saving %s, key %s', filename, transformed_key)\n        if hasattr(filename, \"write\"):"))
R("query-len", (PK, """        logger.debug('xpath query: ' + re.sub(r'"[^"]*"|\\'[^\\']*\\'', '"..."', xpath_str))""", "        logger.debug('xpath query of %d characters', len(xpath_str))"))
R("query-compiled", (PK, """        logger.debug('xpath query: ' + re.sub(r'"[^"]*"|\\'[^\\']*\\'', '"..."', xpath_str))""", "        logger.debug('xpath query: %s', _LITERALS.sub('\"...\"', xpath_str))"),
  (PK, "logger = logging.getLogger(__name__)\n", "logger = logging.getLogger(__name__)\n_LITERALS = re.compile(r'\"[^\"]*\"|\\'[^\\']*\\'')\n"))
R("query-redact", (PK, """        logger.debug('xpath query: ' + re.sub(r'"[^"]*"|\\'[^\\']*\\'', '"..."', xpath_str))""", "        if logger.isEnabledFor(logging.DEBUG):\n            logger.debug('xpath query: %s', redact(xpath_str))"),
  (PK, "class PyKeePass:\n", "def redact(query):\n    \"\"\"hide string literals\"\"\"\n    return re.sub(r'(\"[^\"]*\"|\\'[^\\']*\\')', '\"...\"', query)\n\n\nclass PyKeePass:\n"))
R("log-counts", (PK, "            logger.debug('Creating a new entry')", "            logger.debug('Creating a new entry %s, password of length %d', title, len(password or ''))"),
  (PK, "                raise CredentialsError(\"Invalid credentials\")", "                logger.info('cannot open %s (password %s, key file %s)', filename, 'given' if password else 'missing', keyfile)\n                raise CredentialsError(\"Invalid credentials\")"),
  (CO, "log.debug(\"Decryption unpadding failed\")", "log.debug(\"Decryption unpadding failed (%d bytes, %s)\", len(payload_data), type(self).__name__)"))
R("log-objs", (PK, "            logger.debug('Creating a new entry')", "            logger.debug('Creating a new entry in %s of %r', destination_group, self)"),
  (PK, "        # only remember these once", "        logger.debug('opened %s, version %s, cipher %s', filename, self.version, self.encryption_algorithm)\n        # only remember these once"),
  (EN, "            raise AttributeError('No such key: {}'.format(key))", "            raise AttributeError('No such key: {} in {}'.format(key, self))"))
R("kp-repr", (PK, "    @property\n    def version(self):", "    def __repr__(self):\n        return 'PyKeePass(%r, version=%s, password=%s)' % (self.filename, self.version, 'set' if self.password else None)\n\n    @property\n    def version(self):"))

import varlist2  # noqa: E402,F401
import varlist3  # noqa: E402,F401
import varlist4  # noqa: E402,F401
import varlist5  # noqa: E402,F401
