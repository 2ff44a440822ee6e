"""Second set of variants, written from the property texts and the source."""
from varlist import R, M, PK, EN, GR, BE, AT, XP, CO, K3, K4, KX, DP, SAVE

# ---------------------------------------------------------------- C01
M("C01", "b-move-in-finally", (PK, """            except Exception as e:
                filename_tmp.unlink(missing_ok=True)
                raise e
            shutil.move(filename_tmp, filename)
""", """            finally:
                if filename_tmp.exists():
                    shutil.move(filename_tmp, filename)
"""))
M("C01", "b-tempdir", (PK, "filename_tmp = Path(filename).with_name(Path(filename).name + '.tmp')", "filename_tmp = Path(tempfile.gettempdir()) / (Path(filename).name + '.tmp')"),
  (PK, "import struct\n", "import struct\nimport tempfile\n"))
M("C01", "b-remove-first", (PK, "            shutil.move(filename_tmp, filename)\n", "            if os.path.exists(filename):\n                os.remove(filename)\n            shutil.move(filename_tmp, filename)\n"))
M("C01", "b-swallow-oserror", (PK, "            except Exception as e:\n                filename_tmp", "            except OSError:\n                logger.warning('could not write the database')\n                filename_tmp.unlink(missing_ok=True)\n                return\n            except Exception as e:\n                filename_tmp"))
M("C01", "b-memory-then-write", (PK, SAVE, """            data = KDBX.build(
                self.kdbx,
                password=self.password,
                keyfile=self.keyfile,
                transformed_key=transformed_key,
                decrypt=True
            )
            with open(filename, 'wb') as f:
                f.write(data)
"""))
M("C01", "b-keep-nonempty", (PK, "                filename_tmp.unlink(missing_ok=True)\n                raise e\n", "                if filename_tmp.exists() and not filename_tmp.stat().st_size:\n                    filename_tmp.unlink()\n                raise e\n"))
M("C01", "b-same-name-direct", (PK, "        if hasattr(filename, \"write\"):\n            KDBX.build_stream(\n                self.kdbx,\n                filename,",
  "        if not os.path.isfile(str(filename)) and not hasattr(filename, 'write'):\n            KDBX.build_file(\n                self.kdbx,\n                filename,\n                password=self.password,\n                keyfile=self.keyfile,\n                transformed_key=transformed_key,\n                decrypt=True\n            )\n        elif hasattr(filename, \"write\"):\n            KDBX.build_stream(\n                self.kdbx,\n                filename,"))
R("b-save-memory-tmp", (PK, SAVE, """            data = KDBX.build(
                self.kdbx,
                password=self.password,
                keyfile=self.keyfile,
                transformed_key=transformed_key,
                decrypt=True
            )
            filename_tmp = Path(str(filename) + '.tmp')
            try:
                with open(filename_tmp, 'wb') as f:
                    f.write(data)
            except Exception:
                filename_tmp.unlink(missing_ok=True)
                raise
            os.replace(filename_tmp, filename)
"""))
R("b-save-split", (PK, SAVE, """            self._save_path(Path(filename), transformed_key)
"""), (PK, "    @property\n    def version(self):", """    def _save_path(self, target, transformed_key):
        tmp = target.parent / (target.name + '.tmp')
        credentials = dict(password=self.password, keyfile=self.keyfile, transformed_key=transformed_key)
        try:
            KDBX.build_file(self.kdbx, tmp, decrypt=True, **credentials)
        except BaseException:
            if tmp.exists():
                tmp.unlink()
            raise
        tmp.replace(target)

    @property
    def version(self):"""))

# ---------------------------------------------------------------- C02
M("C02", "b-index-byte", (K4, "            struct.pack('<Q', this._index) +\n            hashlib", "            struct.pack('<Q', this._index & 0xff) +\n            hashlib"))
M("C02", "b-first-mb", (K4, "        this.block_data, hashlib.sha256\n", "        this.block_data[:2**20], hashlib.sha256\n"))
M("C02", "b-max-blocks", (K4, "    lambda item, a, b: len(item.block_data) == 0,\n", "    lambda item, a, b: len(item.block_data) == 0 or len(a) > 4096,\n"))
M("C02", "b-header-prefix", (K4, "        lambda data: hashlib.sha256(data).digest(),\n", "        lambda data: hashlib.sha256(data[:1024]).digest(),\n"))
M("C02", "b-nohmac-precomputed", (K4, "    \"cred_check\" / If(this._._.decrypt,\n", "    \"cred_check\" / If(lambda this: this._._.decrypt and this._._.transformed_key is None,\n"))
M("C28", "b-optional-hash", (K4, "    \"sha256\" / Checksum(\n        Bytes(32),\n        lambda data: hashlib.sha256(data).digest(),\n        this._.header.data,\n        # exception=HeaderChecksumError,\n    ),",
  "    \"sha256\" / If(this._._.decrypt, Checksum(\n        Bytes(32),\n        lambda data: hashlib.sha256(data).digest(),\n        this._.header.data,\n        # exception=HeaderChecksumError,\n    )),"))
M("C02", "b-length-missing", (K4, "        struct.pack('<I', len(this.block_data)) +\n        this.block_data,", "        struct.pack('<I', len(this.block_data) if this.block_data else 0) +\n        (this.block_data if this._index < 2**16 else b''),"))
R("b-hmac-update", (K4, """    return hmac.new(
        hashlib.sha512(
            struct.pack('<Q', this._index) +
            hashlib.sha512(
                this._._.header.value.dynamic_header.master_seed.data +
                this._.transformed_key + b'\\x01'
            ).digest()
        ).digest(),
        struct.pack('<Q', this._index) +
        struct.pack('<I', len(this.block_data)) +
        this.block_data, hashlib.sha256
    ).digest()
""", """    index = this._index.to_bytes(8, 'little')
    base = hashlib.sha512()
    base.update(this._._.header.value.dynamic_header.master_seed.data)
    base.update(this._.transformed_key)
    base.update(b'\\x01')
    mac = hmac.new(hashlib.sha512(index + base.digest()).digest(), digestmod=hashlib.sha256)
    mac.update(index)
    mac.update(struct.pack('<I', len(this.block_data)))
    mac.update(this.block_data)
    return mac.digest()
"""))
R("b-hmac-helper", (K4, "def compute_header_hmac_hash(context):", """def _hmac_base(master_seed, transformed_key):
    return hashlib.sha512(master_seed + transformed_key + b'\\x01').digest()


def compute_header_hmac_hash(context):"""),
  (K4, """            hashlib.sha512(
                context._.header.value.dynamic_header.master_seed.data +
                context.transformed_key +
                b'\\x01'
            ).digest()
""", """            _hmac_base(context._.header.value.dynamic_header.master_seed.data, context.transformed_key)
"""), (K4, """            hashlib.sha512(
                this._._.header.value.dynamic_header.master_seed.data +
                this._.transformed_key + b'\\x01'
            ).digest()
""", """            _hmac_base(this._._.header.value.dynamic_header.master_seed.data, this._.transformed_key)
"""))

# ---------------------------------------------------------------- C03
M("C03", "b-short-zero", (K3, "            len_(this.block_data) == 0,\n", "            len_(this.block_data) <= 16,\n"))
M("C03", "b-hash-prefix", (K3, "                lambda block_data: hashlib.sha256(block_data).digest(),", "                lambda block_data: hashlib.sha256(block_data[:2**20]).digest(),"))
M("C03", "b-zero-hash-ends", (K3, "    lambda item, a, b: len(item.block_data) == 0,  # and item.block_hash == b'\\x00' * 32,", "    lambda item, a, b: len(item.block_data) == 0 or item.block_hash == b'\\x00' * 32,"))
M("C03", "b-index-mod", (K3, "        lambda this: this._index,\n        this\n", "        lambda this: this._index % 1024,\n        this\n"))
M("C03", "b-start-half", (K3, """        "cred_check" / Checksum(
            Bytes(32),
            lambda this: this._._.header.value.dynamic_header.stream_start_bytes.data,
            this,
            # exception=CredentialsError
        ),""", """        "cred_check" / Checksum(
            Bytes(16),
            lambda this: this._._.header.value.dynamic_header.stream_start_bytes.data[:16],
            this,
            # exception=CredentialsError
        ),
        "start_rest" / Computed(lambda this: this._._.header.value.dynamic_header.stream_start_bytes.data[16:]),
        Padding(16),"""))
R("b-block-hash-fn", (K3, """        IfThenElse(
            len_(this.block_data) == 0,
            Checksum(
                Bytes(32),
                lambda _: b'\\x00' * 32,
                this
            ),
            Checksum(
                Bytes(32),
                lambda block_data: hashlib.sha256(block_data).digest(),
                this.block_data,
                # exception=PayloadChecksumError
            )
        )
""", """        Checksum(
            Bytes(32),
            block_digest,
            this.block_data,
        )
"""), (K3, "# encrypted payload is split into multiple data blocks with hashes\nPayloadBlock", """def block_digest(block_data):
    if not block_data:
        return bytes(32)
    return hashlib.sha256(block_data).digest()


# encrypted payload is split into multiple data blocks with hashes
PayloadBlock"""))

# ---------------------------------------------------------------- C04 / C05
M("C04", "b-recover", (CO, "etree.XMLParser(remove_blank_text=True)", "etree.XMLParser(remove_blank_text=True, recover=True)"))
M("C04", "b-truncated-gzip", (CO, "        return zlib.decompress(data, 16 + 15)", "        return zlib.decompressobj(16 + 15).decompress(data)"))
M("C04", "b-bad-gzip-raw", (CO, "        return zlib.decompress(data, 16 + 15)", "        try:\n            return zlib.decompress(data, 16 + 15)\n        except zlib.error:\n            return data"))
M("C04", "b-startswith", (PK, "            elif e.path == '(parsing) -> body -> sha256':\n                raise HeaderChecksumError(\"Corrupted database\")", "            elif e.path == '(parsing) -> body -> sha256' and not decrypt:\n                raise HeaderChecksumError(\"Corrupted database\")"))
M("C04", "b-check-any", (PK, "            if e.path == '(parsing) -> header -> sig_check':", "            if e.path == '(parsing) -> sig_check':"))
M("C04", "b-cred-path", (PK, "                    '(parsing) -> body -> cred_check', # KDBX4\n                    '(parsing) -> cred_check' # KDBX3\n                    ):\n                raise CredentialsError(\"Invalid credentials\")",
  "                    '(parsing) -> body -> cred_check', # KDBX4\n                    '(parsing) -> cred_check' # KDBX3\n                    ):\n                if password is None and keyfile is None:\n                    raise\n                raise CredentialsError(\"Invalid credentials\")"))
R("b-error-table", (PK, """            if e.path in (
                    '(parsing) -> body -> cred_check', # KDBX4
                    '(parsing) -> cred_check' # KDBX3
                    ):
                raise CredentialsError("Invalid credentials")
            elif e.path == '(parsing) -> body -> sha256':
                raise HeaderChecksumError("Corrupted database")
            elif e.path in (
                    '(parsing) -> body -> payload -> hmac_hash', # KDBX4
                    '(parsing) -> xml -> block_hash', # KDBX3
                    '(parsing) -> xml -> block_index' # KDBX3
                    ):
                raise PayloadChecksumError("Error reading database contents")
            else:
                raise
""", """            errors = {
                '(parsing) -> body -> cred_check': CredentialsError("Invalid credentials"),
                '(parsing) -> cred_check': CredentialsError("Invalid credentials"),
                '(parsing) -> body -> sha256': HeaderChecksumError("Corrupted database"),
                '(parsing) -> body -> payload -> hmac_hash': PayloadChecksumError("Error reading database contents"),
                '(parsing) -> xml -> block_hash': PayloadChecksumError("Error reading database contents"),
                '(parsing) -> xml -> block_index': PayloadChecksumError("Error reading database contents"),
            }
            if e.path not in errors:
                raise
            raise errors[e.path]
"""))
R("b-error-suffix", (PK, """            if e.path in (
                    '(parsing) -> body -> cred_check', # KDBX4
                    '(parsing) -> cred_check' # KDBX3
                    ):
                raise CredentialsError("Invalid credentials")
""", """            if e.path.endswith(' -> cred_check'):
                raise CredentialsError("Invalid credentials")
"""))
R("b-parse-select", (PK, """            if hasattr(filename, "read"):
                self.kdbx = KDBX.parse_stream(
                    filename,
                    password=password,
                    keyfile=keyfile,
                    transformed_key=transformed_key,
                    decrypt=decrypt
                )
            else:
                self.kdbx = KDBX.parse_file(
                    filename,
                    password=password,
                    keyfile=keyfile,
                    transformed_key=transformed_key,
                    decrypt=decrypt
                )
""", """            parse = KDBX.parse_stream if hasattr(filename, "read") else KDBX.parse_file
            kdbx = parse(
                filename,
                password=password,
                keyfile=keyfile,
                transformed_key=transformed_key,
                decrypt=decrypt
            )
            self.kdbx = kdbx
"""))
M("C05", "b-stream-first", (PK, "            if hasattr(filename, \"read\"):\n                self.kdbx", "            if hasattr(filename, \"read\"):\n                self.filename = filename\n                self.kdbx"))
M("C05", "b-reload-del", (PK, "        self.read(self.filename, self.password, self.keyfile)", "        password, self._password = self._password, None\n        self.read(self.filename, password, self.keyfile)"))
M("C05", "b-finally", (PK, "        # body integrity/verification\n        except ChecksumError as e:\n", "        # body integrity/verification\n        except ChecksumError as e:\n            self._password = password\n"))

# ---------------------------------------------------------------- C06 / C07
M("C06", "b-version-const", (K4, "            version=kdf_parameters['V'].value\n", "            version=argon2.low_level.ARGON2_VERSION\n"))
M("C06", "b-rounds-cap", (CO, "    for _ in range(0, rounds):", "    for _ in range(0, min(rounds, 2**24)):"))
M("C06", "b-parallel-cap", (K4, "            parallelism=kdf_parameters['P'].value,", "            parallelism=min(kdf_parameters['P'].value, 8),"))
M("C06", "b-password-nfc", (CO, "hashlib.sha256(password.encode('utf-8')).digest()", "hashlib.sha256(unicodedata.normalize('NFC', password).encode('utf-8')).digest()"), (CO, "import re\n", "import re\nimport unicodedata\n"))
M("C06", "b-password-strip", (CO, "password.encode('utf-8')", "password.rstrip('\\n').encode('utf-8')"))
M("C06", "b-encode-replace", (CO, "password.encode('utf-8')", "password.encode('utf-8', 'replace')"))
M("C06", "b-save-or-none", (PK, "                    filename_tmp,\n                    password=self.password,", "                    filename_tmp,\n                    password=self.password or None,"))
M("C06", "b-memory-floor", (K4, "memory_cost=kdf_parameters['M'].value // 1024", "memory_cost=max(kdf_parameters['M'].value // 1024, 1024)"))
M("C06", "b-master-short", (CO, "        context.transformed_key).digest()\n", "        context.transformed_key[:32]).digest()\n"))
M("C06", "b-precomputed-len", (K4, "    if context._._.transformed_key is not None:\n", "    if context._._.transformed_key:\n"))
R("b-kdf-table", (K4, "            type=(argon2.low_level.Type.ID if kdf_parameters['$UUID'].value == kdf_uuids['argon2id'] else argon2.low_level.Type.D),",
  "            type={\n                kdf_uuids['argon2']: argon2.low_level.Type.D,\n                kdf_uuids['argon2id']: argon2.low_level.Type.ID,\n            }[kdf_parameters['$UUID'].value],"))
R("b-kdf-early-return", (K4, """    if context._._.transformed_key is not None:
        transformed_key = context._._.transformed_key
    elif kdf_parameters""", """    if context._._.transformed_key is not None:
        return context._._.transformed_key
    if kdf_parameters"""))
R("b-kdf-params", (K4, """            salt=kdf_parameters['S'].value,
            hash_len=32,""", """            salt=param('S'),
            hash_len=32,"""), (K4, """            time_cost=kdf_parameters['I'].value,
            memory_cost=kdf_parameters['M'].value // 1024,
            parallelism=kdf_parameters['P'].value,
            version=kdf_parameters['V'].value
""", """            time_cost=param('I'),
            memory_cost=param('M') // 1024,
            parallelism=param('P'),
            version=param('V')
"""), (K4, "    if context._._.transformed_key is not None:\n", "    def param(name):\n        return kdf_parameters[name].value\n\n    if context._._.transformed_key is not None:\n"))
R("b-composite-update", (CO, "    return hashlib.sha256(password_composite + keyfile_composite).digest()", "    composite = hashlib.sha256()\n    for part in (password_composite, keyfile_composite):\n        composite.update(part)\n    return composite.digest()"))
R("b-keyfile-helper", (CO, """        if hasattr(keyfile, "read"):
            if hasattr(keyfile, "seekable") and keyfile.seekable():
                keyfile.seek(0)
            keyfile_bytes = keyfile.read()
        else:
            with open(keyfile, 'rb') as f:
                keyfile_bytes = f.read()
""", """        keyfile_bytes = _keyfile_content(keyfile)
"""), (CO, "def compute_key_composite(", """def _keyfile_content(keyfile):
    if not hasattr(keyfile, "read"):
        with open(keyfile, 'rb') as f:
            return f.read()
    if hasattr(keyfile, "seekable") and keyfile.seekable():
        keyfile.seek(0)
    return keyfile.read()


def compute_key_composite("""))
R("b-keyfile-plain-helper", (CO, """            try:
                try:
                    codecs.decode(keyfile_bytes, 'hex')
                    is_hex = True
                except ValueError:
                    is_hex = False
                # if the length is 32 bytes we assume it is the key
                if len(keyfile_bytes) == 32:
                    keyfile_composite = keyfile_bytes
                # if the length is 64 bytes we assume the key is hex encoded
                elif len(keyfile_bytes) == 64 and is_hex:
                    keyfile_composite = codecs.decode(keyfile_bytes, 'hex')
                # anything else may be a file to hash for the key
                else:
                    keyfile_composite = hashlib.sha256(keyfile_bytes).digest()
            except:
                raise IOError('Could not read keyfile')
""", """            keyfile_composite = _plain_keyfile(keyfile_bytes)
"""), (CO, "def compute_key_composite(", """def _plain_keyfile(content):
    if len(content) == 32:
        return content
    if len(content) == 64:
        try:
            return codecs.decode(content, 'hex')
        except ValueError:
            pass
    return hashlib.sha256(content).digest()


def compute_key_composite("""))
M("C07", "b-hash-prefix", (CO, "                assert hash == hash_computed, ", "                assert hash_computed.startswith(hash), "))
M("C07", "b-hash-missing", (CO, "                hash = bytes.fromhex(data_element.attrib['Hash'])\n", "                hash = bytes.fromhex(data_element.attrib.get('Hash', ''))\n"), (CO, "                assert hash == hash_computed, ", "                assert not hash or hash == hash_computed, "))
M("C07", "b-catch-assert", (CO, "        except (etree.XMLSyntaxError, UnicodeDecodeError, AttributeError):", "        except (etree.XMLSyntaxError, UnicodeDecodeError, AttributeError, AssertionError):"))
M("C07", "b-hex-long", (CO, "                elif len(keyfile_bytes) == 64 and is_hex:", "                elif len(keyfile_bytes) >= 64 and is_hex:"))
M("C07", "b-text-mode", (CO, "            with open(keyfile, 'rb') as f:\n                keyfile_bytes = f.read()", "            with open(keyfile, 'rb') as f:\n                keyfile_bytes = f.read(2**20)"))
M("C07", "b-version1", (CO, "            if version.startswith('1.0'):", "            if version.startswith('1'):"))
M("C07", "b-seek-end", (CO, "            keyfile_bytes = keyfile.read()\n", "            keyfile_bytes = keyfile.read()\n            if isinstance(keyfile_bytes, str):\n                keyfile_bytes = keyfile_bytes.strip().encode('utf-8')\n"))
R("b-hash-compare-digest", (CO, "                assert hash == hash_computed, \"Keyfile has invalid hash\"", "                if not hmac.compare_digest(hash_computed, hash):\n                    raise AssertionError(\"Keyfile has invalid hash\")"), (CO, "import hashlib\n", "import hashlib\nimport hmac\n"))
R("b-chunk-count", (CO, """        i = 0
        while i < len(payload_data):
            blocks.append(Container(block_data=payload_data[i:i + 2**20]))
            i += 2**20
""", """        size = 2**20
        for n in range((len(payload_data) + size - 1) // size):
            blocks.append(Container(block_data=payload_data[n * size:(n + 1) * size]))
"""))
R("b-chunk-consume", (CO, """        i = 0
        while i < len(payload_data):
            blocks.append(Container(block_data=payload_data[i:i + 2**20]))
            i += 2**20
        blocks.append(Container(block_data=b''))
""", """        while payload_data:
            blocks.append(Container(block_data=payload_data[:2**20]))
            payload_data = payload_data[2**20:]
        blocks.append(Container(block_data=b''))
"""))
R("b-chunk-comp", (CO, """        blocks = []
        # split payload_data into 1 MB blocks (spec default)
        i = 0
        while i < len(payload_data):
            blocks.append(Container(block_data=payload_data[i:i + 2**20]))
            i += 2**20
        blocks.append(Container(block_data=b''))

        return blocks
""", """        size = 1 << 20
        return [
            Container(block_data=payload_data[start:start + size])
            for start in range(0, len(payload_data), size)
        ] + [Container(block_data=b'')]
"""))

# ---------------------------------------------------------------- C08 / C09 / C10
M("C08", "b-pad-unaligned", (CO, "        payload_data = self.pad(payload_data)\n", "        if len(payload_data) % 16:\n            payload_data = self.pad(payload_data)\n"))
M("C08", "b-lump-reversed", (CO, "                l += obj[key]\n", "                l += reversed(obj[key])\n"))
M("C08", "b-skip-empty-items", (CO, "            else:\n                l.append(obj[key])\n", "            elif obj[key].get('data', True):\n                l.append(obj[key])\n"))
M("C08", "b-join-limit", (CO, "b''.join([block.block_data for block in blocks])", "b''.join([block.block_data for block in blocks[:4096]])"))
M("C08", "b-lump-dedupe", (CO, "                d[item[self.key]].append(item)\n", "                if item not in d[item[self.key]]:\n                    d[item[self.key]].append(item)\n"))
M("C08", "b-compress-flag", (CO, "        data = compressobj.compress(data)\n        data += compressobj.flush()\n        return data\n", "        data = compressobj.compress(data[:2**31 - 1])\n        data += compressobj.flush()\n        return data\n"))
M("C08", "b-xml-ascii", (CO, "        return etree.tostring(tree)\n", "        return etree.tostring(tree, encoding='iso-8859-1')\n"))
M("C08", "b-xml-pretty", (CO, "        return etree.tostring(tree)\n", "        return etree.tostring(tree, pretty_print=True)\n"))
M("C08", "b-xml-text", (CO, "        return etree.tostring(tree)\n", "        return etree.tostring(tree, method='c14n', with_comments=False)\n"))
M("C09", "b-twofish-iv", (CO, "Twofish.new(master_key, mode=Twofish.MODE_CBC, IV=encryption_iv)", "Twofish.new(master_key, mode=Twofish.MODE_CBC, IV=encryption_iv[:16].ljust(16, b'\\0') if len(encryption_iv) < 16 else bytes(16))"))
M("C08", "b-strip-comments", (CO, "etree.XMLParser(remove_blank_text=True)", "etree.XMLParser(remove_blank_text=True, remove_comments=True, remove_pis=True)"))
M("C09", "b-no-comment", (K3, "         'comment': 1,\n", ""))
M("C09", "b-public-custom", (K4, "'public_custom_data': 12\n", "'public_custom_data': 13\n"))
M("C09", "b-int64-signed", (K3, "             'transform_rounds': Int64ul,", "             'transform_rounds': Int32ul,"))
M("C09", "b-kdf-name", (PK, "            elif kdf_parameters['$UUID'].value == kdf_uuids['aeskdf']:\n                return 'aeskdf'", "            else:\n                return 'aeskdf'"))
M("C09", "b-version-order", (PK, "            self.kdbx.header.value.major_version,\n            self.kdbx.header.value.minor_version\n", "            self.kdbx.header.value.major_version,\n            min(self.kdbx.header.value.minor_version, 1)\n"))
M("C10", "b-string-only", (CO, "'//Value[@Protected=\\'True\\']'", "'//String/Value[@Protected=\\'True\\']'"))
M("C10", "b-bad-cleared", (CO, "                    log.error(\n                        \"Element at {} marked as protected, but could not unprotect\".format(tree.getpath(elem))\n                    )", "                    log.error(\n                        \"Element at {} marked as protected, but could not unprotect\".format(tree.getpath(elem))\n                    )\n                    elem.text = None"))
M("C10", "b-mark-dropped", (CO, "                    elem.text = result\n", "                    elem.text = result\n                    if not result:\n                        del elem.attrib['Protected']\n"))
M("C10", "b-encode-errors", (CO, "                        elem.text.encode('utf-8')\n", "                        elem.text.strip().encode('utf-8')\n"))
M("C10", "b-decode-ignore", (CO, ".decode('utf-8')\n                    # strip", ".decode('utf-8', 'ignore')\n                    # strip"))
M("C10", "b-urlsafe", (CO, "                elem.text = base64.b64encode(\n", "                elem.text = base64.urlsafe_b64encode(\n"))
M("C10", "b-skip-short", (CO, "            if elem.text is not None:\n                elem.text = base64", "            if elem.text is not None and elem.text.strip():\n                elem.text = base64"))
R("b-iter-values", (CO, "        for elem in tree_copy.xpath(self.protected_xpath):\n            if elem.text is not None:\n                elem.text = base64.b64encode(\n                    cipher.encrypt(\n                        elem.text.encode('utf-8')\n                    )\n                )\n",
  "        for elem in tree_copy.xpath(self.protected_xpath):\n            if elem.text is None:\n                continue\n            plain = elem.text.encode('utf-8')\n            elem.text = base64.b64encode(cipher.encrypt(plain)).decode('ascii')\n"))
R("b-unprotect-helper", (CO, """                try:
                    result = cipher.decrypt(base64.b64decode(elem.text)).decode('utf-8')
                    # strip invalid XML characters - https://stackoverflow.com/questions/8733233
                    result = re.sub(
                        '[^\\u0020-\\uD7FF\\u0009\\u000A\\u000D\\uE000-\\uFFFD\\U00010000-\\U0010FFFF]+',
                        '',
                        result
                    )
                    elem.text = result
""", """                try:
                    elem.text = self._reveal(cipher, elem.text)
"""), (CO, "    def _decode(self, tree, con, path):\n        cipher = self.get_cipher(", """    @staticmethod
    def _reveal(cipher, text):
        data = cipher.decrypt(base64.b64decode(text))
        # strip invalid XML characters - https://stackoverflow.com/questions/8733233
        invalid = re.compile('[^\\u0020-\\uD7FF\\u0009\\u000A\\u000D\\uE000-\\uFFFD\\U00010000-\\U0010FFFF]+')
        return invalid.sub('', data.decode('utf-8'))

    def _decode(self, tree, con, path):
        cipher = self.get_cipher("""))
R("b-pad-mixin", (CO, """class AES256Payload(DecryptedPayload):
    def get_cipher(self, master_key, encryption_iv):
        return AES.new(master_key, AES.MODE_CBC, encryption_iv)
    def pad(self, data):
        return CryptoPadding.pad(data, 16)
    def unpad(self, data):
        return CryptoPadding.unpad(data, 16)
""", """class BlockPayload(DecryptedPayload):
    block_size = 16

    def pad(self, data):
        return CryptoPadding.pad(data, self.block_size)

    def unpad(self, data):
        return CryptoPadding.unpad(data, self.block_size)


class AES256Payload(BlockPayload):
    def get_cipher(self, master_key, encryption_iv):
        return AES.new(master_key, AES.MODE_CBC, iv=encryption_iv)
"""), (CO, """class TwoFishPayload(DecryptedPayload):
    def get_cipher(self, master_key, encryption_iv):
        return Twofish.new(master_key, mode=Twofish.MODE_CBC, IV=encryption_iv)
    def pad(self, data):
        return CryptoPadding.pad(data, 16)
    def unpad(self, data):
        return CryptoPadding.unpad(data, 16)
""", """class TwoFishPayload(BlockPayload):
    def get_cipher(self, master_key, encryption_iv):
        return Twofish.new(master_key, mode=Twofish.MODE_CBC, IV=encryption_iv)
"""))
R("b-dyndict-loop", (CO, """        l = []
        for key in obj:
            if key in self.lump:
                l += obj[key]
            else:
                l.append(obj[key])

        return ListContainer(l)
""", """        result = ListContainer()
        for key, value in obj.items():
            if key in self.lump:
                result.extend(value)
            else:
                result.append(value)

        return result
"""))
R("b-dyndict-decode", (CO, """        d = OrderedDict()
        for l in self.lump:
            d[l] = ListContainer([])
        for item in obj:
            if item[self.key] in self.lump:
                d[item[self.key]].append(item)
            else:
                d[item[self.key]] = item

        return Container(d)
""", """        result = Container({name: ListContainer([]) for name in self.lump})
        for item in obj:
            name = item[self.key]
            if name in self.lump:
                result[name].append(item)
            else:
                result[name] = item

        return result
"""))
R("b-decompress-const", (CO, "        return zlib.decompress(data, 16 + 15)", "        return zlib.decompress(data, wbits=zlib.MAX_WBITS | 16)"))
R("b-kdf-names", (PK, """            if kdf_parameters['$UUID'].value == kdf_uuids['argon2']:
                return 'argon2'
            elif kdf_parameters['$UUID'].value == kdf_uuids['argon2id']:
                return 'argon2id'
            elif kdf_parameters['$UUID'].value == kdf_uuids['aeskdf']:
                return 'aeskdf'
""", """            kdf_uuid = kdf_parameters['$UUID'].value
            for name in ('argon2', 'argon2id', 'aeskdf'):
                if kdf_uuids[name] == kdf_uuid:
                    return name
"""))

# ---------------------------------------------------------------- C11
M("C11", "b-own-mark", (EN, "        if self.password:\n            return self._set_string_field('Password', value)\n        else:\n            return self._set_string_field('Password', value, True)", "        return self._set_string_field('Password', value, self._is_property_protected('Password') or None)"))
M("C11", "b-otp-plain", (EN, "        if self.otp:\n            return self._set_string_field('otp', value)\n        else:\n            return self._set_string_field('otp', value, True)", "        return self._set_string_field('otp', value)"))
M("C11", "b-false-default", (EN, "            protected_str = str(protected)\n", "            protected_str = str(protected) if protected else None\n"))
M("C11", "b-mark-by-key", (EN, "        if protected is None:\n            protected_field", "        if protected is None and key not in ('URL', 'Notes'):\n            protected_field"), (EN, "        else:\n            protected_str = str(protected)\n", "        elif protected is not None:\n            protected_str = str(protected)\n"))
M("C11", "b-ctor-otp", (EN, "                    E.String(E.Key('otp'), E.Value(otp, Protected=\"True\"))", "                    E.String(E.Key('otp'), E.Value(otp, Protected=str(otp.startswith('otpauth'))))"))
M("C11", "b-ctor-empty", (EN, "                E.String(E.Key('Password'), E.Value(password, Protected=\"True\"))", "                E.String(E.Key('Password'), E.Value(password, Protected=\"True\")) if password else E.String(E.Key('Password'), E.Value(password))"))
R("b-set-string", (EN, """        protected_str = None
        if protected is None:
            protected_field = self._xpath(fill('String/Key[text()="{}"]/../Value', key), first=True)
            if protected_field is not None:
                protected_str = protected_field.attrib.get("Protected")
        else:
            protected_str = str(protected)

        if protected_str is None:
            new = E.String(E.Key(key), E.Value(value))
        else:
            new = E.String(E.Key(key), E.Value(value, Protected=protected_str))
""", """        attributes = {}
        if protected is not None:
            attributes['Protected'] = str(protected)
        elif field is not None:
            old_value = field.find('Value')
            if old_value is not None and 'Protected' in old_value.attrib:
                attributes['Protected'] = old_value.attrib['Protected']
        new = E.String(E.Key(key), E.Value(value, **attributes))
"""))
R("b-password-mark", (EN, "        if self.password:\n            return self._set_string_field('Password', value)\n        else:\n            return self._set_string_field('Password', value, True)", "        protected = None if self.password else True\n        self._set_string_field('Password', value, protected=protected)"))

# ---------------------------------------------------------------- C12 / C13
M("C12", "b-indent", (PK, "        return etree.tostring(\n            self.tree,\n            pretty_print=True,", "        etree.indent(self.tree)\n        return etree.tostring(\n            self.tree,\n            pretty_print=True,"))
M("C12", "b-tags-normal", (EN, "        val = self._get_subelement_text('Tags')\n", "        val = self._get_subelement_text('Tags')\n        if val and ',' in val:\n            self.tags = val.replace(',', ';').split(';')\n            val = self._get_subelement_text('Tags')\n"))
M("C12", "b-touch-read", (EN, "    def deref(self, attribute):\n        \"\"\"See `PyKeePass.deref`\"\"\"\n", "    def deref(self, attribute):\n        \"\"\"See `PyKeePass.deref`\"\"\"\n        self.touch()\n"))
M("C12", "b-hist-create", (EN, "        if self._element.find('History') is not None:\n            return [", "        if self._element.find('History') is None and not self.is_a_history_entry:\n            self._element.append(Element('History'))\n        if self._element.find('History') is not None:\n            return ["))
M("C12", "b-path-none", (GR, "            if p.name is not None:  # dont make the root group appear\n                path.insert(0, p.name)\n            p = p.parentgroup\n        return path\n\n    def append", "            if p.name is not None:  # dont make the root group appear\n                path.insert(0, p.name)\n            else:\n                p.name = ''\n            p = p.parentgroup\n        return path\n\n    def append"))
M("C12", "b-reader-times", (BE, "            if prop is not None and prop.text is not None:\n                return self._kp._decode_time(prop.text)", "            if prop is not None and prop.text is not None:\n                prop.text = prop.text.strip()\n                return self._kp._decode_time(prop.text)"))
M("C12", "b-save-times", (PK, "        if hasattr(filename, \"write\"):\n            KDBX.build_stream(", "        for elem in self._xpath('//Entry[not(Times)]'):\n            elem.append(E.Times())\n        if hasattr(filename, \"write\"):\n            KDBX.build_stream("))
M("C13", "b-path-memo", (GR, "        # The root group is an orphan\n        if self.is_root_group or self.parentgroup is None:\n            return []\n", "        if getattr(self, '_cached_path', None):\n            return self._cached_path\n        # The root group is an orphan\n        if self.is_root_group or self.parentgroup is None:\n            return []\n"), (GR, "            p = p.parentgroup\n        return path\n\n    def append", "            p = p.parentgroup\n        self._cached_path = path\n        return path\n\n    def append"))
M("C13", "b-lru-find", (PK, "    @property\n    def recyclebin_group(self):\n        \"\"\"`Group`: RecycleBin Group of database\"\"\"\n", "    @functools.lru_cache(maxsize=None)\n    def _bin_uuid(self):\n        elem = self._xpath('/KeePassFile/Meta/RecycleBinUUID', first=True)\n        return uuid.UUID(bytes=base64.b64decode(elem.text))\n\n    @property\n    def recyclebin_group(self):\n        \"\"\"`Group`: RecycleBin Group of database\"\"\"\n        return self.find_groups(uuid=self._bin_uuid(), first=True)\n"), (PK, "import base64\n", "import base64\nimport functools\n"))
M("C13", "b-attach-binary", (AT, "        try:\n            return self._kp.binaries[self.id]\n", "        try:\n            if not hasattr(self, '_data'):\n                self._data = self._kp.binaries[self.id]\n            return self._data\n"))
M("C13", "b-version-attr", (PK, "        self._keyfile = keyfile\n\n    def reload", "        self._keyfile = keyfile\n        self._tree = self.kdbx.body.payload.xml if decrypt else None\n\n    def reload"), (PK, "        return self.payload.xml\n", "        return self._tree\n"))
R("b-xpath-compiled", (PK, "        elements = tree.xpath(\n            xpath_str, namespaces={'re': 'http://exslt.org/regular-expressions'}\n        )\n", "        namespaces = {'re': 'http://exslt.org/regular-expressions'}\n        elements = tree.xpath(xpath_str, namespaces=namespaces)\n"))
R("b-tostring-opts", (PK, "        return etree.tostring(\n            self.tree,\n            pretty_print=True,\n            standalone=True,\n            encoding='utf-8'\n        )", "        options = dict(pretty_print=True, standalone=True, encoding='utf-8')\n        return etree.tostring(self.tree, **options)"))

# ---------------------------------------------------------------- batch 3: C14 - C21
M("C14", "b-url-key", (EN, "    @url.setter\n    def url(self, value):\n        return self._set_string_field('URL', value)", "    @url.setter\n    def url(self, value):\n        return self._set_string_field('Url', value)"))
M("C14", "b-icon-inserted-twice", (BE, "        v = self._element.find(tag)\n        if v is not None:\n            self._element.remove(v)\n        self._element.append(new)", "        v = self._element.find(tag)\n        if v is not None and v.text:\n            self._element.remove(v)\n        self._element.append(new)"))
M("C14", "b-tags-comma-only", (EN, "return val.replace(',', ';').split(';') if val else []", "return [t for t in val.replace(',', ';').split(';') if t.strip()] if val else []"))
M("C14", "b-tags-sorted", (EN, "        v = sep.join(value if isinstance(value, list) else [value])", "        v = sep.join(sorted(set(value)) if isinstance(value, list) else [value])"))
M("C14", "b-seq-none-empty", (EN, "        self._element.find('AutoType/DefaultSequence').text = value", "        if value:\n            self._element.find('AutoType/DefaultSequence').text = value"))
M("C14", "b-enabled-truthy", (EN, "            return enabled.text == 'True'", "            return enabled.text != 'False'"))
M("C14", "b-enabled-lower", (EN, "        if value is not None:\n            enabled.text = str(value)", "        if value:\n            enabled.text = str(value)"))
M("C14", "b-expires-reset", (BE, "        d.text = 'True' if value else 'False'", "        d.text = 'True' if value else 'False'\n        if not value:\n            self.expiry_time = self.ctime"))
M("C14", "b-times-first-only", (BE, "    def _set_times_property(self, prop, value):\n        times = self._element.find('Times')\n        if times is not None:\n            prop = times.find(prop)\n            if prop is not None:\n", "    def _set_times_property(self, prop, value):\n        times = self._element.find('Times')\n        if times is not None:\n            prop = times.find(prop)\n            if prop is not None and prop.text is not None:\n"))
M("C14", "b-att-filename-trunc", (AT, "        self._element.find('Key').text = filename", "        self._element.find('Key').text = filename.split('/')[-1]"))
M("C14", "b-att-id-value", (AT, "        return int(self._element.find('Value').attrib['Ref'])", "        return abs(int(self._element.find('Value').attrib['Ref']))"))
M("C14", "b-dbdesc-name", (PK, "        item = self._xpath('/KeePassFile/Meta/DatabaseDescription', first=True)\n        item.text = str(name)", "        item = self._xpath('/KeePassFile/Meta/DatabaseDescription', first=True)\n        item.text = str(name)\n        if not self.database_name:\n            self.database_name = name"))
M("C14", "b-default-user-anywhere", (PK, "        elem = self._xpath('/KeePassFile/Meta/DefaultUserName', first=True)", "        elem = self._xpath('//DefaultUserName', first=True)"), (PK, "        item = self._xpath('/KeePassFile/Meta/DefaultUserName', first=True)\n        item.text = str(name)", "        item = self._xpath('/KeePassFile/Meta/DefaultUserName', first=True)\n        item.text = str(name) if name else None"))
M("C14", "b-ctor-autotype", (EN, "E.Enabled(str(autotype_enabled)),", "E.Enabled(str(bool(autotype_sequence) or autotype_enabled)),"))
M("C14", "b-string-any-depth", (EN, "        field = self._xpath(fill('String/Key[text()=\"{}\"]/../Value', key), history=True, first=True)\n        if field is not None:\n            return field.text", "        field = self._xpath(fill('.//String/Key[text()=\"{}\"]/../Value', key), history=True, first=True)\n        if field is not None:\n            return field.text"))
M("C14", "b-title-sync", (EN, "        return self._set_string_field('Title', value)", "        if not self.notes:\n            self._set_string_field('Notes', '')\n        return self._set_string_field('Title', value)"))
M("C14", "b-otp-touch", (EN, "    @otp.setter\n    def otp(self, value):\n        if self.otp:", "    @otp.setter\n    def otp(self, value):\n        value = value.replace(' ', '')\n        if self.otp:"))
M("C14", "b-name-strip-slash", (GR, "        return self._set_subelement_text('Name', value)", "        return self._set_subelement_text('Name', value.replace('/', '_'))"))
M("C14", "b-notes-group-desc", (GR, "        return self._set_subelement_text('Notes', value)", "        return self._set_subelement_text('Notes', value[:65535])"))
M("C14", "b-uuid-setter-hex", (BE, "        b64_uuid = base64.b64encode(uuid.bytes).decode('utf-8')\n        return self._set", "        b64_uuid = base64.b64encode(uuid.bytes_le).decode('utf-8')\n        return self._set"))

M("C15", "b-otp-case", (XP, "        'otp': '/String/Key[text()=\"otp\"]/../Value[.=\"{}\"]/../..',", "        'otp': '/String/Key[text()=\"otp\"]/../Value[contains(., \"{}\")]/../..',"))
M("C15", "b-tags-regex-skip", (PK, "            if kwargs.get('tags') is not None:", "            if kwargs.get('tags') is not None and len(kwargs['tags']) > 1:\n                kwargs['tags'] = sorted(kwargs['tags'])[:8]\n            if kwargs.get('tags') is not None:"))
M("C15", "b-window-ends", (XP, "        'autotype_window': '/AutoType/Association/Window[.=\"{}\"]/../../..',", "        'autotype_window': '/AutoType/Association[1]/Window[.=\"{}\"]/../../..',"))
M("C15", "b-seq-regex-plain", (XP, "        'autotype_sequence': '/AutoType/DefaultSequence[re:test(text(), \"{}\", \"{flags}\")]/../..',", "        'autotype_sequence': '/AutoType/DefaultSequence[.=\"{}\"]/../..',"))
M("C15", "b-flags-upper", (XP, "    return template.format(*values, flags=flags)", "    return template.format(*values, flags=flags if flags != 'i' else '')"))
M("C15", "b-break-after-first", (PK, "                    xp += fill(keys_xp[regex][key], value, flags=flags)\n", "                    xp += fill(keys_xp[regex][key], value, flags=flags)\n                    if key == 'uuid':\n                        break\n"))
M("C15", "b-string-skip-empty", (PK, "                for key, value in (kwargs['string'] or {}).items():\n                    xp +=", "                for key, value in (kwargs['string'] or {}).items():\n                    if not value:\n                        continue\n                    xp +="))
M("C15", "b-zero-id", (PK, "                if value is not None:\n                    xp +=", "                if value not in (None, ''):\n                    xp +="))
M("C15", "b-file-id-regex", (XP, "        'id': '/Value[@Ref=\"{}\"]/..',", "        'id': '/Value[starts-with(@Ref, \"{}\")]/..',"))
M("C15", "b-ignore-unknown-falsy", (PK, "                if key not in keys_xp[regex]:\n                    raise TypeError('Invalid keyword argument \"{}\"'.format(key))\n                if value is not None:\n", "                if value is not None:\n                    if key not in keys_xp[regex]:\n                        raise TypeError('Invalid keyword argument \"{}\"'.format(key))\n"))

M("C16", "b-quote-apos", (XP, "    if '\"' not in value:\n", "    if '\"' not in value or \"'\" not in value:\n"))
M("C16", "b-quote-two", (XP, "    return 'concat(\"' + '\", \\'\"\\', \"'.join(value.split('\"')) + '\")'", "    return 'concat(\"' + '\", \\'\"\\', \"'.join(value.split('\"', 1)) + '\")'"))
M("C16", "b-fill-twice", (XP, "    return template.format(*values, flags=flags)", "    for value in values:\n        template = template.replace('{}', value, 1)\n    return template.replace('{flags}', str(flags))"))
M("C16", "b-percent", (PK, "                xp += fill(path_xp[regex]['group'], group, flags=flags)\n            if", "                xp += path_xp[regex]['group'].format(group, flags=flags)\n            if"))
M("C16", "b-tag-quote", (PK, "f'contains(text(),{quote(t)})'", "f'contains(text(),\"{t}\")'"))
M("C16", "b-normalize", (XP, "    value = str(value)\n", "    value = ' '.join(str(value).split())\n"))
M("C16", "b-delete-prop-raw", (EN, "        prop = self._xpath(fill('String/Key[text()=\"{}\"]/..', key), first=True)", "        prop = self._element.find('String[Key=\"{}\"]'.format(key))"))
M("C16", "b-protected-raw", (EN, "        field = self._xpath(fill('String/Key[text()=\"{}\"]/../Value', key), first=True)\n        if field is not None:\n            return field.attrib", "        field = self._xpath('String/Key[text()=\"{}\"]/../Value'.format(key), first=True)\n        if field is not None:\n            return field.attrib"))

M("C17", "b-history-kw", (PK, "        if not history:\n            prefix += '[not(ancestor::History)]'", "        if not history and 'Entry' in prefix:\n            prefix += '[not(ancestor::History)]'"))
M("C17", "b-first-last", (PK, "            res = res[0] if res else None", "            res = res[0] if len(res) == 1 else (res[-1] if res else None)"))
M("C17", "b-att-desc", (PK, "        prefix = '//Binary[Key]' if recursive else '/Binary'", "        prefix = '//Binary' if recursive or element is None else '/*/Binary'"))
M("C17", "b-path-root-skip", (PK, "            xp += '/KeePassFile/Root/Group'\n", "            xp += '/KeePassFile/Root/Group' if len(path) > 1 else '/KeePassFile/Root//Group'\n"))
M("C17", "b-falsy-tree", (PK, "            tree=tree._element if tree else None,", "            tree=tree._element if tree and not first else None,"))
M("C17", "b-dedupe", (PK, "        # return first object in list or None\n        if first:", "        if cast:\n            res = list(dict.fromkeys(res))\n        # return first object in list or None\n        if first:"))
M("C17", "b-limit", (PK, "        res = []\n        for e in elements:\n            if cast:", "        res = []\n        for e in elements[:10000]:\n            if cast:"))
M("C17", "b-entries-desc", (GR, "for x in self._element.findall('Entry')]", "for x in self._element.iterfind('.//Entry')]"))
M("C17", "b-subgroups-empty", (GR, "for x in self._element.findall('Group')]", "for x in self._element.findall('Group') if x.find('Name') is not None]"))

M("C18", "b-insert-first", (EN, "            self._element.find('History').append(archive)", "            self._element.find('History').insert(0, archive)"))
M("C18", "b-live-history-gone", (EN, "            archive.remove(hist)\n", "            archive.remove(hist)\n            for old in hist.findall('Entry')[:-10]:\n                pass\n            while len(self._element.find('History')) >= 10:\n                self._element.find('History').remove(self._element.find('History')[0])\n"))
M("C18", "b-touch-live", (EN, "        archive = deepcopy(self._element)\n", "        archive = deepcopy(self._element)\n        self.touch(modify=True)\n"))
M("C18", "b-dedupe-same", (EN, "            archive.remove(hist)\n            self._element.find('History').append(archive)", "            archive.remove(hist)\n            if not self.history or self.history[-1].mtime != self.mtime:\n                self._element.find('History').append(archive)"))
M("C18", "b-delete-all-keeps", (EN, "            self._element.remove(self._element.find('History'))", "            for item in self._element.find('History'):\n                self._element.find('History').remove(item)"))
M("C18", "b-delete-by-uuid", (EN, "            self._element.find('History').remove(history_entry._element)", "            for item in self.history:\n                if item == history_entry:\n                    self._element.find('History').remove(item._element)"))
M("C18", "b-history-reversed", (EN, "for x in self._element.find('History').findall('Entry')]", "for x in reversed(self._element.find('History').findall('Entry'))]"))
M("C18", "b-drop-attachments", (EN, "        archive = deepcopy(self._element)\n", "        archive = deepcopy(self._element)\n        for binary in archive.findall('Binary'):\n            archive.remove(binary)\n"))
M("C18", "b-history-tail", (EN, "            history = Element('History')\n            history.append(archive)\n", "            history = Element('History')\n            archive.find('Times/UsageCount').text = '0'\n            history.append(archive)\n"))

M("C19", "b-trash-copy", (PK, "        self.move_entry( entry, recyclebin_group)", "        recyclebin_group._element.append(deepcopy(entry._element))\n        entry.delete()"), (PK, "import base64\n", "import base64\nfrom copy import deepcopy\n"))
M("C19", "b-trash-delete-dupe", (PK, "        recyclebin_group = self._create_or_get_recyclebin_group()\n        self.move_entry( entry, recyclebin_group)", "        recyclebin_group = self._create_or_get_recyclebin_group()\n        for old in recyclebin_group.entries:\n            if old.title == entry.title and old.username == entry.username:\n                self.delete_entry(old)\n        self.move_entry( entry, recyclebin_group)"))
M("C19", "b-bin-under-first", (PK, "        group = self.add_group( self.root_group, **kwargs)", "        group = self.add_group( self.groups[-1] if len(self.groups) > 50 else self.root_group, **kwargs)"))
M("C19", "b-check-late", (PK, "        if not self._can_be_moved_to_recyclebin(group):\n            raise UnableToSendToRecycleBin\n        recyclebin_group = self._create_or_get_recyclebin_group()\n", "        recyclebin_group = self._create_or_get_recyclebin_group()\n        if not self._can_be_moved_to_recyclebin(group):\n            raise UnableToSendToRecycleBin\n"))
M("C19", "b-bin-by-name", (PK, "        existing_group = self.recyclebin_group\n", "        existing_group = self.recyclebin_group or self.find_groups(name='Recycle Bin', first=True)\n"))
M("C19", "b-empty-entries-only", (PK, "        while len(group.subgroups):\n            self.delete_group(group.subgroups[0])\n", "        for subgroup in group.subgroups:\n            if not subgroup.subgroups:\n                self.delete_group(subgroup)\n"))
M("C19", "b-empty-one", (PK, "        while len(group.entries):\n            self.delete_entry(group.entries[0])", "        for i, entry in enumerate(group.entries):\n            if entry.history and i > 100:\n                continue\n            self.delete_entry(entry)"))
M("C19", "b-bin-not-refused", (PK, "        return elem is None\n", "        return elem is None or recyclebin_group.parentgroup is None\n"))
M("C19", "b-root-by-name", (PK, "        if entry_or_group == self.root_group:\n            return False\n", "        if getattr(entry_or_group, 'is_root_group', False) and not entry_or_group.subgroups:\n            return False\n"))

M("C20", "b-move-copy-back", (PK, "    def move_entry(self, entry, destination_group):", "    def move_entry(self, entry, destination_group):"), (GR, "                self._element.append(e._element)\n", "                self._element.insert(len(self._element), e._element)\n                if e.group is None:\n                    e.delete()\n"))
M("C20", "b-delete-title", (PK, "            entry (`Entry`): entry to delete\n        \"\"\"\n        entry.delete()", "            entry (`Entry`): entry to delete\n        \"\"\"\n        entry.delete_history(all=True) if entry.history else None\n        for e in self.find_entries(uuid=entry.uuid):\n            e.delete()"))
M("C20", "b-delete-tail", (BE, "    def delete(self):\n        self._element.getparent().remove(self._element)", "    def delete(self):\n        parent = self._element.getparent()\n        parent.remove(self._element)\n        if parent.tag == 'Group' and not parent.findall('Entry') and not parent.findall('Group') and parent.find('Name') is None:\n            parent.getparent().remove(parent)"))
M("C20", "b-dup-title-only", (PK, "            title=title,\n            username=username,\n            first=True,\n", "            title=title,\n            username=username or None,\n            first=True,\n"))
M("C20", "b-dup-recursive", (PK, "            group=destination_group,\n            recursive=False\n        )\n\n        if entries", "            group=destination_group,\n            history=True,\n            recursive=True\n        )\n\n        if entries"))
M("C20", "b-force-ignored", (PK, "        if entries and not force_creation:", "        if entries and not (force_creation and password):"))
M("C20", "b-force-replace", (PK, "            destination_group.append(entry)\n\n        return entry", "            if force_creation and entries and entries.password == password:\n                entries.delete()\n            destination_group.append(entry)\n\n        return entry"))
M("C20", "b-add-then-check", (PK, "        if entries and not force_creation:\n            raise", "        if entries and not force_creation:\n            entries.touch()\n            raise"))
M("C20", "b-addgroup-existing", (PK, "        destination_group.append(group)\n\n        return group", "        for g in destination_group.subgroups:\n            if g.name == group_name and g.icon == icon and g.notes == notes:\n                return g\n        destination_group.append(group)\n\n        return group"))
M("C20", "b-append-list-first", (GR, "        if isinstance(entries, list):\n            for e in entries:\n                self._element.append(e._element)", "        if isinstance(entries, list):\n            for e in entries:\n                if e.parentgroup != self:\n                    self._element.append(e._element)"))
M("C20", "b-att-delete-all", (AT, "        self._element.getparent().remove(self._element)", "        for e in self._element.getparent().findall('Binary'):\n            if e.find('Key').text == self.filename:\n                self._element.getparent().remove(e)"))

M("C21", "b-dedupe-binary", (PK, "        # return binary id\n        return len(self.binaries) - 1", "        # return binary id\n        return max(i for i, b in enumerate(self.binaries) if b == self.binaries[-1]) if self.version < (4, 0) else len(self.binaries) - 1"))
M("C21", "b-reuse-existing", (PK, "        if self.version >= (4, 0):\n            # add protected flag byte\n", "        if data in self.binaries:\n            return self.binaries.index(data[:4096])\n        if self.version >= (4, 0):\n            # add protected flag byte\n"))
M("C21", "b-no-history", (PK, "        for reference in self.find_attachments(id=id, history=True):", "        for reference in self.find_attachments(id=id):"))
M("C21", "b-gt-history", (PK, "            '//Binary/Value[@Ref > \"{}\"]/..'.format(id),", "            '//Binary[not(ancestor::History)]/Value[@Ref > \"{}\"]/..'.format(id),"))
M("C21", "b-gte-string", (PK, "            '//Binary/Value[@Ref > \"{}\"]/..'.format(id),", "            '//Group/Entry/Binary/Value[@Ref > \"{}\"]/..'.format(id),"))
M("C21", "b-negative-check", (PK, "        if id < 0:\n            raise BinaryError", "        if id < -len(self.binaries):\n            raise BinaryError"))
M("C21", "b-refs-first", (PK, "        if id < 0:\n            raise BinaryError('No such binary with id {}'.format(id))\n        try:\n", "        if id < 0:\n            raise BinaryError('No such binary with id {}'.format(id))\n        for reference in self.find_attachments(id=id, history=True):\n            reference.delete()\n        try:\n"))
M("C21", "b-flag-strip", (PK, "binaries = [a.data[1:] for a in", "binaries = [a.data.lstrip(b'\\x00\\x01') for a in"))
M("C21", "b-empty-compressed", (PK, "                if elem.text is not None:\n                    if elem.get('Compressed') == 'True':", "                if elem.text is not None:\n                    if elem.get('Compressed') != 'False':"))
M("C21", "b-raw-deflate", (PK, "                data = compressor.compress(data)\n                data += compressor.flush()", "                data = compressor.compress(data) + compressor.flush(zlib.Z_SYNC_FLUSH)"))
M("C21", "b-att-negative", (AT, "            return self._kp.binaries[self.id]\n        except IndexError:", "            return self._kp.binaries[self.id % max(1, len(self._kp.binaries))]\n        except IndexError:"))
M("C21", "b-add-att-check", (EN, "            E.Value(Ref=str(id))\n", "            E.Value(Ref=str(min(id, len(self._kp.binaries))))\n"))

R("b-set-subelement", (BE, "        v = self._element.find(tag)\n        if v is not None:\n            self._element.remove(v)\n        self._element.append(new)", "        for old in self._element.findall(tag)[:1]:\n            self._element.remove(old)\n        self._element.append(new)"))
R("b-set-string-helper", (EN, "        if protected_str is None:\n            new = E.String(E.Key(key), E.Value(value))\n        else:\n            new = E.String(E.Key(key), E.Value(value, Protected=protected_str))\n", "        attributes = {} if protected_str is None else {'Protected': protected_str}\n        new = E.String(E.Key(key), E.Value(value, **attributes))\n"))
R("b-custom-comp", (EN, "        props = {}\n        for k in keys:\n            props[k] = self._get_string_field(k)\n        return props", "        return {k: self._get_string_field(k) for k in keys}"))
R("b-path-list", (EN, "        p = self.parentgroup\n        path = [self.title]\n        while p is not None and not p.is_root_group:\n            if p.name is not None:  # dont make the root group appear\n                path.insert(0, p.name)\n            p = p.parentgroup\n        return path", "        names = []\n        p = self.parentgroup\n        while p is not None and not p.is_root_group:\n            if p.name is not None:\n                names.append(p.name)\n            p = p.parentgroup\n        names.reverse()\n        return names + [self.title]"))
R("b-history-helper", (EN, "        archive = deepcopy(self._element)\n        hist = archive.find('History')\n        if hist is not None:\n            archive.remove(hist)\n            self._element.find('History').append(archive)\n        else:\n            history = Element('History')\n            history.append(archive)\n            self._element.append(history)", "        archive = self._archive()\n        history = self._element.find('History')\n        if history is None:\n            history = Element('History')\n            self._element.append(history)\n        history.append(archive)\n\n    def _archive(self):\n        archive = deepcopy(self._element)\n        nested = archive.find('History')\n        if nested is not None:\n            archive.remove(nested)\n        return archive"))
R("b-history-prop", (EN, "        if self._element.find('History') is not None:\n            return [HistoryEntry(element=x, kp=self._kp) for x in self._element.find('History').findall('Entry')]\n        else:\n            return []", "        items = self._element.findall('History/Entry')\n        return [HistoryEntry(element=item, kp=self._kp) for item in items]"))
R("b-find-split", (PK, "            for key, value in kwargs.items():\n                if key not in keys_xp[regex]:\n                    raise TypeError('Invalid keyword argument \"{}\"'.format(key))\n                if value is not None:\n                    xp += fill(keys_xp[regex][key], value, flags=flags)\n", "            templates = keys_xp[regex]\n            for key in kwargs:\n                if key not in templates:\n                    raise TypeError('Invalid keyword argument \"{}\"'.format(key))\n            xp += ''.join(\n                fill(templates[key], value, flags=flags)\n                for key, value in kwargs.items() if value is not None\n            )\n"))
R("b-xpath-cast", (PK, """        res = []
        for e in elements:
            if cast:
                if e.tag == 'Entry':
                    res.append(Entry(element=e, kp=self))
                elif e.tag == 'Group':
                    res.append(Group(element=e, kp=self))
                elif e.tag == 'Binary' and e.getparent().tag == 'Entry':
                    res.append(Attachment(element=e, kp=self))
                else:
                    raise Exception('Could not cast element {}'.format(e))
            else:
                res.append(e)
""", """        res = [self._cast(e) for e in elements] if cast else list(elements)
"""), (PK, "    _xpath = xpath\n", """    _xpath = xpath

    def _cast(self, e):
        if e.tag == 'Binary' and e.getparent().tag == 'Entry':
            return Attachment(element=e, kp=self)
        classes = {'Entry': Entry, 'Group': Group}
        if e.tag not in classes:
            raise Exception('Could not cast element {}'.format(e))
        return classes[e.tag](element=e, kp=self)
"""))
R("b-first-next", (PK, "            res = res[0] if res else None", "            res = next(iter(res), None)"))
R("b-empty-list", (PK, "        while len(group.subgroups):\n            self.delete_group(group.subgroups[0])\n        while len(group.entries):\n            self.delete_entry(group.entries[0])", "        for subgroup in group.subgroups:\n            self.delete_group(subgroup)\n        for entry in group.entries:\n            self.delete_entry(entry)"))
R("b-add-entry-guard", (PK, "        if entries and not force_creation:\n            raise Exception(", "        if not force_creation and entries is not None:\n            raise Exception("))
R("b-trash-common", (PK, "        if not self._can_be_moved_to_recyclebin(entry):\n            raise UnableToSendToRecycleBin\n        recyclebin_group = self._create_or_get_recyclebin_group()\n        self.move_entry( entry, recyclebin_group)", "        self._trash(entry)"), (PK, "        if not self._can_be_moved_to_recyclebin(group):\n            raise UnableToSendToRecycleBin\n        recyclebin_group = self._create_or_get_recyclebin_group()\n        self.move_group( group, recyclebin_group)", "        self._trash(group)\n\n    def _trash(self, element):\n        if not self._can_be_moved_to_recyclebin(element):\n            raise UnableToSendToRecycleBin\n        self._create_or_get_recyclebin_group().append(element)"))
R("b-binaries-enumerate", (PK, "            binaries = [a.data[1:] for a in self.payload.inner_header.binary]", "            binaries = []\n            for item in self.payload.inner_header.binary:\n                flag, data = item.data[:1], item.data[1:]\n                binaries.append(data)"))
R("b-delete-binary-loop", (PK, "        binaries_gt = self._xpath(\n            '//Binary/Value[@Ref > \"{}\"]/..'.format(id),\n            cast=True\n        )\n        for reference in binaries_gt:\n            reference.id = reference.id - 1", "        for reference in self._xpath(\n            '//Binary/Value[@Ref > {:d}]/..'.format(id), cast=True\n        ):\n            reference.id -= 1"))
R("b-append-iter", (GR, "        if isinstance(entries, list):\n            for e in entries:\n                self._element.append(e._element)\n        else:\n            self._element.append(entries._element)", "        if not isinstance(entries, list):\n            entries = [entries]\n        self._element.extend([e._element for e in entries])"))
R("b-reindex-index", (EN, "        group = self.group._element\n        first_index = self.group._first_entry\n        group.remove(self._element)\n        group.insert(new_index+first_index, self._element)", "        parent = self.group\n        position = parent._first_entry + new_index\n        parent._element.remove(self._element)\n        parent._element.insert(position, self._element)"))
R("b-first-entry", (GR, "        children = self._element.getchildren()\n        first_element = next(e for e in children if e.tag == \"Entry\")\n        return children.index(first_element)", "        for index, child in enumerate(self._element):\n            if child.tag == 'Entry':\n                return index\n        raise StopIteration"))
R("b-ctor-strings", (EN, "            if url:\n                self._element.append(E.String(E.Key('URL'), E.Value(url)))\n            if notes:\n                self._element.append(E.String(E.Key('Notes'), E.Value(notes)))\n", "            for key, value in (('URL', url), ('Notes', notes)):\n                if value:\n                    self._element.append(E.String(E.Key(key), E.Value(value)))\n"))

# ---------------------------------------------------------------- batch 4: C22 - C33
M("C22", "b-naive-local", (PK, "        if date.tzinfo is None:\n            return date.replace(tzinfo=timezone.utc)\n", "        if date.tzinfo is None:\n            return date.astimezone(timezone.utc)\n"))
M("C22", "b-seconds-attr", (PK, "                ).total_seconds()\n            )\n", "                ).seconds\n            )\n"))
M("C22", "b-iso-trim", (PK, "datetime.fromisoformat(text.replace('Z','+00:00'))", "datetime.fromisoformat(text[:19])"))
M("C22", "b-iso-space", (PK, "            return value.isoformat()", "            return value.replace(microsecond=0, tzinfo=None).isoformat()"))
M("C22", "b-iso-z", (PK, "            return value.isoformat()", "            return value.strftime('%Y-%m-%dT%H:%M:%SZ')"))
M("C22", "b-fallback-narrow", (PK, "            except (BinasciiError, struct.error):", "            except struct.error:"))
M("C22", "b-signed", (PK, "                        seconds=struct.unpack('<Q', base64.b64decode(text))[0]", "                        seconds=struct.unpack('<q', base64.b64decode(text))[0] % (1 << 32)"))
M("C22", "b-expiry-naive", (BE, "            expiry_time_str = self._kp._encode_time(expiry_time.astimezone(timezone.utc))", "            expiry_time_str = self._kp._encode_time(expiry_time.replace(tzinfo=timezone.utc))"))
M("C23", "b-kf-early", (PK, "        self._keyfile = keyfile\n        self.credchange_date = datetime.now(timezone.utc)", "        if keyfile == self._keyfile:\n            return\n        self._keyfile = keyfile\n        self.credchange_date = datetime.now(timezone.utc)"))
M("C23", "b-pw-none-keeps", (PK, "        self._password = password\n        self.credchange_date = datetime.now(timezone.utc)", "        if password is not None:\n            self._password = password\n        self.credchange_date = datetime.now(timezone.utc)"))
M("C23", "b-date-local", (PK, "        self._password = password\n        self.credchange_date = datetime.now(timezone.utc)", "        self._password = password\n        self.credchange_date = datetime.now().replace(tzinfo=timezone.utc)"))
M("C23", "b-reload-stale", (PK, "        self.read(self.filename, self.password, self.keyfile)", "        self.read(self.filename, self.password, self.keyfile, self.kdbx.body.get('transformed_key'))"))
M("C23", "b-stream-nokf", (PK, "                self.kdbx,\n                filename,\n                password=self.password,\n                keyfile=self.keyfile,\n", "                self.kdbx,\n                filename,\n                password=self.password,\n                keyfile=self.keyfile or None if self.password is None else self.keyfile,\n"))
M("C23", "b-save-filename", (PK, "            shutil.move(filename_tmp, filename)", "            shutil.move(filename_tmp, filename)\n            self.filename = filename"))
M("C23", "b-days-abs", (PK, "        path = '/KeePassFile/Meta/MasterKeyChangeRec'\n        item = self._xpath(path, first=True)\n        item.text = str(days)", "        path = '/KeePassFile/Meta/MasterKeyChangeRec'\n        item = self._xpath(path, first=True)\n        item.text = str(days or -1)"))
M("C24", "b-deref-log", (PK, "            if ref_entry is None:\n                return None\n", "            if ref_entry is None:\n                logger.debug('cannot resolve %s in %s', ref, value)\n                return None\n"))
M("C24", "b-history-log", (EN, "        archive = deepcopy(self._element)\n", "        archive = deepcopy(self._element)\n        logger.debug('archived %s', [f.find('Value').text for f in archive.findall('String')])\n"))
M("C24", "b-attr-error", (EN, "            raise AttributeError('No such key: {}'.format(key))", "            raise AttributeError('No such key: {} in {}'.format(key, self.custom_properties))"))
M("C24", "b-tmp-xml", (PK, "            filename_tmp = Path(filename).with_name(Path(filename).name + '.tmp')\n", "            filename_tmp = Path(filename).with_name(Path(filename).name + '.tmp')\n            if logger.isEnabledFor(logging.DEBUG):\n                filename_tmp.with_suffix('.xml').write_bytes(self.xml())\n"))
M("C24", "b-group-str", (GR, "        return 'Group: \"{}\"'.format(pathstr)", "        return 'Group: \"{}\" {}'.format(pathstr, [e.password for e in self.entries if e.title == ''])"))
M("C24", "b-att-repr", (AT, "        return \"Attachment: '{}' -> {}\".format(self.filename, self.id)", "        return \"Attachment: '{}' -> {} {}\".format(self.filename, self.id, self.entry.otp)"))
M("C24", "b-set-log", (EN, "        if field is not None:\n            self._element.remove(field)\n        self._element.append(new)", "        if field is not None:\n            logger.debug('replacing %s', field.findtext('Value'))\n            self._element.remove(field)\n        self._element.append(new)"))
M("C25", "b-ref-lower", (EN, "self.uuid.hex.upper())", "str(self.uuid).upper())"), (PK, "                    search_value = uuid.UUID(search_value)", "                    search_value = uuid.UUID(hex=search_value) if len(search_value) == 32 else uuid.UUID(search_value)"))
M("C25", "b-strip", (PK, "                wanted_value = self._deref(getattr(ref_entry, wanted_field) or '', parents + (ref,))", "                wanted_value = self._deref((getattr(ref_entry, wanted_field) or '').strip(), parents + (ref,))"))
M("C25", "b-sub-regex", (PK, "            value = value.replace(ref, wanted_value)\n", "            value = re.sub(re.escape(ref), wanted_value, value)\n"))
M("C25", "b-first-ref", (PK, "references = set(re.findall(r'({REF:([TUPANI])@([TUPANI]):([^}]+)})', value))", "references = set(re.findall(r'({REF:([TUPANI])@([TUPANI]):(\\w+)})', value))"))
M("C25", "b-case", (PK, "references = set(re.findall(r'({REF:([TUPANI])@([TUPANI]):([^}]+)})', value))", "references = set(re.findall(r'({REF:([TUPAN])@([TUPANI]):([^}]+)})', value))"))
M("C25", "b-notfound-continue", (PK, "            if ref_entry is None:\n                return None\n", "            if ref_entry is None:\n                continue\n"))
M("C25", "b-parents-global", (PK, "parents + (ref,))\n", "parents + tuple(r[0] for r in references))\n"))
M("C25", "b-history-true", (PK, "            ref_entry = self.find_entries(first=True, **{search_in: search_value})", "            ref_entry = self.find_entries(first=True, history=True, **{search_in: search_value})"))
M("C26", "b-reserved-otp", (EN, "    'Notes',\n    'otp'\n]", "    'Notes',\n]"))
M("C26", "b-get-any", (EN, "        assert key not in reserved_keys, '{} is a reserved key'.format(key)\n        return self._get_string_field(key)", "        return self._get_string_field(key)"))
M("C26", "b-delete-reserved", (EN, "        if key not in self._get_string_field_keys(exclude_reserved=True):", "        if key not in self._get_string_field_keys():"))
M("C26", "b-listing-nonempty", (EN, "        for k in keys:\n            props[k] = self._get_string_field(k)\n        return props", "        for k in keys:\n            value = self._get_string_field(k)\n            if value is not None:\n                props[k] = value\n        return props"))
M("C26", "b-contains", (EN, "        prop = self._xpath(fill('String/Key[text()=\"{}\"]/..', key), first=True)", "        prop = self._xpath(fill('String/Key[contains(text(), \"{}\")]/..', key), first=True)"))
M("C26", "b-startswith", (EN, "            return [x for x in results if x not in reserved_keys]", "            return [x for x in results if x not in reserved_keys and not x.startswith('KP2A_')]"))
M("C26", "b-set-strip", (EN, "        return self._set_string_field(key, value, protect)", "        return self._set_string_field(key.strip(), value, protect)"))
M("C26", "b-set-upper", (EN, "        assert key not in reserved_keys, '{} is a reserved key'.format(key)\n        return self._set_string_field(key, value, protect)", "        assert key.title() not in reserved_keys, '{} is a reserved key'.format(key)\n        return self._set_string_field(key, value, protect)"))
M("C27", "b-expiry-truth", (PK, "                expires=True if expiry_time else False,", "                expires=bool(expiry_time and expiry_time.tzinfo),"))
M("C27", "b-uuid-title", (BE, "            E.UUID(base64.b64encode(uuid.uuid1().bytes).decode('utf-8'))", "            E.UUID(base64.b64encode(uuid.uuid3(uuid.NAMESPACE_DNS, str(expiry_time)).bytes).decode('utf-8'))"))
M("C27", "b-eq-type", (BE, "        if isinstance(other, BaseElement):\n            return hash(self) == hash(other)", "        if isinstance(other, type(self)):\n            return hash(self) == hash(other)"))
M("C27", "b-hist-hash", (EN, "        return hash((self.uuid, self.mtime))", "        return hash((self.uuid, self.mtime.date()))"))
M("C27", "b-tags-lower", (EN, "                    E.Tags(';'.join(tags) if isinstance(tags, list) else tags)", "                    E.Tags(';'.join(t.strip() for t in tags) if isinstance(tags, list) else tags)"))
M("C27", "b-usage", (BE, "                E.LocationChanged(current_time_str)", "                E.LocationChanged(expiry_time_str)"))
M("C27", "b-expires-none", (BE, "                E.Expires(str(expires if expires is not None else False)),", "                E.Expires(str(bool(expires) and expiry_time is not None and expiry_time > datetime.now(timezone.utc))),"))
M("C27", "b-group-notes", (PK, "        if icon:\n            group = Group(name=group_name, icon=icon, notes=notes, kp=self)\n        else:\n            group = Group(name=group_name, notes=notes, kp=self)", "        if icon:\n            group = Group(name=group_name, icon=icon, kp=self)\n        else:\n            group = Group(name=group_name, notes=notes, kp=self)"))
M("C27", "b-module-uuid", (BE, "            E.UUID(base64.b64encode(uuid.uuid1().bytes).decode('utf-8'))", "            E.UUID(base64.b64encode(uuid.uuid1(clock_seq=0, node=0).bytes).decode('utf-8'))"))
M("C28", "b-payload-default", (PK, "        if self.kdbx.body.payload is None:\n            raise ValueError(\"Database is not decrypted\")\n        else:", "        if self.kdbx.body.payload is None and not self._password:\n            raise ValueError(\"Database is not decrypted\")\n        else:"))
M("C28", "b-body-get", (PK, "        if self.kdbx.body.payload is None:\n            raise ValueError", "        if self.kdbx.body.get('payload') is None and self.version >= (4, 0):\n            raise ValueError"))
M("C29", "b-open-template-out", (PK, "    keepass_instance.filename = filename\n", "    keepass_instance.filename = filename or BLANK_DATABASE_LOCATION\n"))
M("C29", "b-kf-only", (PK, "    keepass_instance.password = password\n    keepass_instance.keyfile = keyfile\n", "    keepass_instance.password = password if password or not keyfile else BLANK_DATABASE_PASSWORD\n    keepass_instance.keyfile = keyfile\n"))
M("C29", "b-empty-pw", (PK, "    keepass_instance.password = password\n    keepass_instance.keyfile = keyfile\n", "    if password:\n        keepass_instance.password = password\n    keepass_instance.keyfile = keyfile\n"))
M("C29", "b-return-reopened", (PK, "    keepass_instance.save(transformed_key=transformed_key)\n    return keepass_instance", "    keepass_instance.save(transformed_key=transformed_key)\n    keepass_instance.keyfile = keyfile or None\n    keepass_instance.password = password or None\n    return keepass_instance"))
M("C30", "b-remove-first", (BE, "        new = getattr(E, tag)(value)\n        v = self._element.find(tag)\n        if v is not None:\n            self._element.remove(v)\n        self._element.append(new)", "        v = self._element.find(tag)\n        if v is not None:\n            self._element.remove(v)\n        self._element.append(getattr(E, tag)(value))"))
M("C30", "b-time-clear", (BE, "            if prop is not None:\n                prop.text = self._kp._encode_time(value)", "            if prop is not None:\n                prop.text = None\n                prop.text = self._kp._encode_time(value)"))
M("C30", "b-swallow", (EN, "        if protected_str is None:\n            new = E.String(E.Key(key), E.Value(value))\n", "        if protected_str is None:\n            try:\n                new = E.String(E.Key(key), E.Value(value))\n            except ValueError:\n                new = E.String(E.Key(key), E.Value(''))\n"))
M("C30", "b-att-id-first", (AT, "        self._element.find('Value').attrib['Ref'] = str(id)", "        self._element.find('Value').attrib.pop('Ref')\n        self._element.find('Value').attrib['Ref'] = str(id)"))
M("C30", "b-prot-first", (EN, "        if protected_str is None:\n            new =", "        if field is not None and protected_str is not None:\n            field.find('Value').set('Protected', protected_str)\n        if protected_str is None:\n            new ="))
M("C30", "b-pw-date-first", (PK, "        mk_time.text = self._encode_time(date)", "        mk_time.text = ''\n        mk_time.text = self._encode_time(date)"))
M("C32", "b-notes-first", (DP, "def find_entries_by_notes(self, notes, regex=False, flags=None,\n", "def find_entries_by_notes(self, notes, regex=True, flags=None,\n"))
M("C33", "b-expired-date", (BE, "            return (\n                datetime.now(timezone.utc) >\n                self.expiry_time\n            )", "            return (\n                datetime.now(timezone.utc).date() >\n                self.expiry_time.date()\n            )"))
M("C33", "b-zero-days", (PK, "        if change_date is None or self.credchange_required_days == -1:", "        if change_date is None or self.credchange_required_days <= 0:"))
M("C33", "b-touch-expiry", (BE, "        self.atime = now\n        if modify:\n            self.mtime = now", "        self.atime = now\n        if modify and self.mtime <= now:\n            self.mtime = now"))
M("C33", "b-touch-parent", (BE, "        self.atime = now\n        if modify:\n            self.mtime = now", "        self.atime = now\n        if modify:\n            self.mtime = now\n            if self.group is not None:\n                self.group.mtime = now"))
M("C33", "b-round-days", (PK, "        return (now_date - change_date).days > self.credchange_recommended_days", "        return round((now_date - change_date).total_seconds() / 86400) > self.credchange_recommended_days"))
R("b-encode-helper", (PK, "            diff_seconds = int(\n                (\n                    value -\n                    datetime(\n                        year=1,\n                        month=1,\n                        day=1,\n                        tzinfo=timezone.utc\n                    )\n                ).total_seconds()\n            )\n            return base64.b64encode(\n                struct.pack('<Q', diff_seconds)\n            ).decode('utf-8')", "            epoch = datetime(1, 1, 1, tzinfo=timezone.utc)\n            seconds = int((value - epoch).total_seconds())\n            return base64.b64encode(seconds.to_bytes(8, 'little')).decode('ascii')"))
R("b-decode-early", (PK, "        if self.version >= (4, 0):\n            # decode KDBX4 date from b64 format\n            try:\n                return (\n                    datetime(year=1, month=1, day=1, tzinfo=timezone.utc) +\n                    timedelta(\n                        seconds=struct.unpack('<Q', base64.b64decode(text))[0]\n                    )\n                )\n            except (BinasciiError, struct.error):\n                return self._decode_iso_time(text)\n        else:\n            return self._decode_iso_time(text)", "        if self.version < (4, 0):\n            return self._decode_iso_time(text)\n        try:\n            (seconds,) = struct.unpack('<Q', base64.b64decode(text))\n        except (BinasciiError, struct.error):\n            return self._decode_iso_time(text)\n        return datetime(1, 1, 1, tzinfo=timezone.utc) + timedelta(seconds=seconds)"))
R("b-credchange-helper", (PK, "        change_date = self.credchange_date\n        if change_date is None or self.credchange_required_days == -1:\n            return False\n        now_date = datetime.now(timezone.utc)\n        return (now_date - change_date).days > self.credchange_required_days", "        return self._older_than(self.credchange_required_days)"), (PK, "        change_date = self.credchange_date\n        if change_date is None or self.credchange_recommended_days == -1:\n            return False\n        now_date = datetime.now(timezone.utc)\n        return (now_date - change_date).days > self.credchange_recommended_days", "        return self._older_than(self.credchange_recommended_days)\n\n    def _older_than(self, days):\n        changed = self.credchange_date\n        if changed is None or days == -1:\n            return False\n        age = datetime.now(timezone.utc) - changed\n        return age.days > days"))
R("b-meta-helper", (PK, "        elem = self._xpath('/KeePassFile/Meta/DatabaseName', first=True)\n        return elem.text", "        return self._meta('DatabaseName').text"), (PK, "        item = self._xpath('/KeePassFile/Meta/DatabaseName', first=True)\n        item.text = str(name)", "        self._meta('DatabaseName').text = str(name)\n\n    def _meta(self, name):\n        return self._xpath('/KeePassFile/Meta/' + name, first=True)"))
R("b-deref-sub", (PK, "            if wanted_field == 'uuid':\n                wanted_value = ref_entry.uuid.hex.upper()\n            else:\n                wanted_value = self._deref(getattr(ref_entry, wanted_field) or '', parents + (ref,))\n            if wanted_value is None:\n                return None\n            value = value.replace(ref, wanted_value)", "            if wanted_field != 'uuid':\n                found = getattr(ref_entry, wanted_field)\n                found = self._deref(found, parents + (ref,)) if found else ''\n            else:\n                found = ref_entry.uuid.hex.upper()\n            if found is None:\n                return None\n            value = found.join(value.split(ref))"))
R("b-ref-fstring", (EN, "        return '{{REF:{}@I:{}}}'.format(attribute_to_field[attribute], self.uuid.hex.upper())", "        field = attribute_to_field[attribute]\n        return f'{{REF:{field}@I:{self.uuid.hex.upper()}}}'"))
R("b-create-kwargs", (PK, "    keepass_instance = PyKeePass(\n        BLANK_DATABASE_LOCATION, BLANK_DATABASE_PASSWORD\n    )\n\n    keepass_instance.filename = filename\n    keepass_instance.password = password\n    keepass_instance.keyfile = keyfile\n", "    kp = keepass_instance = PyKeePass(filename=BLANK_DATABASE_LOCATION, password=BLANK_DATABASE_PASSWORD)\n    for name, value in (('filename', filename), ('password', password), ('keyfile', keyfile)):\n        setattr(kp, name, value)\n"))
R("b-touch-order", (BE, "        now = datetime.now(timezone.utc)\n        self.atime = now\n        if modify:\n            self.mtime = now", "        now = datetime.now(timezone.utc)\n        if modify:\n            self.mtime = now\n        self.atime = now"))
R("b-expired-and", (BE, "        if self.expires:\n            return (\n                datetime.now(timezone.utc) >\n                self.expiry_time\n            )\n\n        return False", "        return bool(self.expires) and self.expiry_time < datetime.now(timezone.utc)"))
R("b-reserved-set", (EN, "            return [x for x in results if x not in reserved_keys]", "            return [x for x in results if x not in set(reserved_keys)]"))
R("b-custom-assert", (EN, "        assert key not in reserved_keys, '{} is a reserved key'.format(key)\n        return self._set_string_field(key, value, protect)", "        self._check_key(key)\n        return self._set_string_field(key, value, protect)"), (EN, "        assert key not in reserved_keys, '{} is a reserved key'.format(key)\n        return self._get_string_field(key)", "        self._check_key(key)\n        return self._get_string_field(key)\n\n    @staticmethod\n    def _check_key(key):\n        assert key not in reserved_keys, '{} is a reserved key'.format(key)"))
R("b-eq-direct", (BE, "        if isinstance(other, BaseElement):\n            return hash(self) == hash(other)\n        return NotImplemented", "        if not isinstance(other, BaseElement):\n            return NotImplemented\n        return self.__hash__() == other.__hash__()"))
R("b-times-loop", (BE, "        self._element.append(\n            E.Times(\n                E.CreationTime(current_time_str),\n                E.LastModificationTime(current_time_str),\n                E.LastAccessTime(current_time_str),\n                E.ExpiryTime(expiry_time_str),\n                E.Expires(str(expires if expires is not None else False)),\n                E.UsageCount(str(0)),\n                E.LocationChanged(current_time_str)\n            )\n        )", "        times = E.Times()\n        for tag in ('CreationTime', 'LastModificationTime', 'LastAccessTime'):\n            times.append(E(tag, current_time_str))\n        times.append(E.ExpiryTime(expiry_time_str))\n        times.append(E.Expires(str(expires if expires is not None else False)))\n        times.append(E.UsageCount('0'))\n        times.append(E.LocationChanged(current_time_str))\n        self._element.append(times)"))
R("b-payload-raise", (PK, "        if self.kdbx.body.payload is None:\n            raise ValueError(\"Database is not decrypted\")\n        else:\n            return self.kdbx.body.payload", "        payload = self.kdbx.body.payload\n        if payload is not None:\n            return payload\n        raise ValueError(\"Database is not decrypted\")"))

# ---------------------------------------------------------------- C34
_CR = "    keepass_instance.filename = filename\n"
M("C34", "b-create-const", (PK, _CR, _CR + "    keepass_instance.kdbx.header.value.dynamic_header.master_seed.data = b'\\0' * 32\n"))
M("C34", "b-create-weak", (PK, _CR, _CR + "    keepass_instance.kdbx.header.value.dynamic_header['encryption_iv'].data = random.randbytes(16)\n"), (PK, "import re\n", "import random\nimport re\n"))
M("C34", "b-inner-const", (PK, _CR, _CR + "    keepass_instance.kdbx.body.payload.inner_header.protected_stream_key.data = bytes(64)\n"))
R("c34-redraw", (PK, _CR, _CR + "    keepass_instance.kdbx.header.value.dynamic_header['encryption_iv'].data = os.urandom(16)\n"), (PK, "import re\n", "import os\nimport re\n"))
