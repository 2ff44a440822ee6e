"""Fourth set: behaviour-keeping rewrites of the format layer and the database class, in several styles."""
from varlist import R, M, PK, EN, GR, BE, AT, XP, CO, K3, K4, KX, DP, SAVE

# ------------------------------------------------------------------ common.py
R("e-dyn-decode-setdefault", (CO, """        d = OrderedDict()
        for l in self.lump:
            d[l] = ListContainer([])
        for item in obj:
            if item[self.key] in self.lump:
                d[item[self.key]].append(item)
            else:
                d[item[self.key]] = item

        return Container(d)
""", """        result = Container((name, ListContainer()) for name in self.lump)
        for item in obj:
            name = item[self.key]
            if name not in self.lump:
                result[name] = item
                continue
            result[name].append(item)
        return result
"""))
R("e-dyn-encode-gen", (CO, """        l = []
        for key in obj:
            if key in self.lump:
                l += obj[key]
            else:
                l.append(obj[key])

        return ListContainer(l)
""", """        items = ListContainer()
        for key, value in obj.items():
            items.extend(value if key in self.lump else [value])
        return items
"""))
R("e-aeskdf-while", (CO, """    transformed_key = key_composite
    for _ in range(0, rounds):
        transformed_key = cipher.encrypt(transformed_key)

    return hashlib.sha256(transformed_key).digest()
""", """    block = key_composite
    encrypt = cipher.encrypt
    remaining = rounds
    while remaining > 0:
        block = encrypt(block)
        remaining -= 1

    digest = hashlib.sha256()
    digest.update(block)
    return digest.digest()
"""))
R("e-composite-split", (CO, """    # hash the password
    if password is not None:
        password_composite = hashlib.sha256(password.encode('utf-8')).digest()
    else:
        password_composite = b''
    # hash the keyfile
    if keyfile:
        if hasattr(keyfile, "read"):
            if hasattr(keyfile, "seekable") and keyfile.seekable():
                keyfile.seek(0)
            keyfile_bytes = keyfile.read()
        else:
            with open(keyfile, 'rb') as f:
                keyfile_bytes = f.read()
        # try""", """    password_composite = b'' if password is None else hashlib.sha256(password.encode('utf-8')).digest()
    # hash the keyfile
    if keyfile:
        keyfile_bytes = _read_keyfile(keyfile)
        # try"""), (CO, """def compute_key_composite(password=None""", """def _read_keyfile(keyfile):
    \"\"\"Contents of a keyfile given as path or stream\"\"\"
    if not hasattr(keyfile, "read"):
        with open(keyfile, 'rb') as f:
            return f.read()
    if hasattr(keyfile, "seekable") and keyfile.seekable():
        keyfile.seek(0)
    return keyfile.read()


def compute_key_composite(password=None"""))
R("e-composite-parts", (CO, """    # create composite key from password and keyfile composites
    return hashlib.sha256(password_composite + keyfile_composite).digest()
""", """    # create composite key from password and keyfile composites
    composite = hashlib.sha256(password_composite)
    composite.update(keyfile_composite)
    return composite.digest()
"""))
R("e-composite-plain", (CO, """            try:
                try:
                    codecs.decode(keyfile_bytes, 'hex')
                    is_hex = True
                except ValueError:
                    is_hex = False
                # if the length is 32 bytes we assume it is the key
                if len(keyfile_bytes) == 32:
                    keyfile_composite = keyfile_bytes
                # if the length is 64 bytes we assume the key is hex encoded
                elif len(keyfile_bytes) == 64 and is_hex:
                    keyfile_composite = codecs.decode(keyfile_bytes, 'hex')
                # anything else may be a file to hash for the key
                else:
                    keyfile_composite = hashlib.sha256(keyfile_bytes).digest()
            except:
                raise IOError('Could not read keyfile')
""", """            try:
                keyfile_composite = _plain_keyfile(keyfile_bytes)
            except:
                raise IOError('Could not read keyfile')
"""), (CO, """def compute_key_composite(password=None""", """def _plain_keyfile(data):
    \"\"\"Key of a keyfile which is not XML\"\"\"
    # if the length is 32 bytes we assume it is the key
    if len(data) == 32:
        return data
    # if the length is 64 bytes we assume the key is hex encoded
    if len(data) == 64:
        try:
            return codecs.decode(data, 'hex')
        except ValueError:
            pass
    # anything else may be a file to hash for the key
    return hashlib.sha256(data).digest()


def compute_key_composite(password=None"""))
R("e-master-update", (CO, """    master_key = hashlib.sha256(
        context._.header.value.dynamic_header.master_seed.data +
        context.transformed_key).digest()
    return master_key
""", """    header = context._.header.value.dynamic_header
    return hashlib.sha256(b''.join((header.master_seed.data, context.transformed_key))).digest()
"""))
R("e-xml-write", (CO, """        parser = etree.XMLParser(remove_blank_text=True)
        return etree.parse(io.BytesIO(data), parser)
""", """        with io.BytesIO(data) as stream:
            return etree.parse(stream, parser=etree.XMLParser(remove_blank_text=True))
"""))
R("e-unprotect-helper", (CO, """        for elem in tree.xpath(self.protected_xpath):
            if elem.text is not None:
                try:
                    result = cipher.decrypt(base64.b64decode(elem.text)).decode('utf-8')
                    # strip invalid XML characters - https://stackoverflow.com/questions/8733233
                    result = re.sub(
                        '[^\\u0020-\\uD7FF\\u0009\\u000A\\u000D\\uE000-\\uFFFD\\U00010000-\\U0010FFFF]+',
                        '',
                        result
                    )
                    elem.text = result
                except""", """        for elem in self._protected(tree):
                try:
                    elem.text = self._reveal(cipher, elem.text)
                except"""), (CO, """        for elem in tree_copy.xpath(self.protected_xpath):
            if elem.text is not None:
                elem.text = base64.b64encode(
                    cipher.encrypt(
                        elem.text.encode('utf-8')
                    )
                )
        return tree_copy
""", """        for elem in self._protected(tree_copy):
            elem.text = base64.b64encode(cipher.encrypt(elem.text.encode('utf-8')))
        return tree_copy

    def _protected(self, tree):
        return [elem for elem in tree.xpath(self.protected_xpath) if elem.text is not None]

    @staticmethod
    def _reveal(cipher, text):
        result = cipher.decrypt(base64.b64decode(text)).decode('utf-8')
        # strip invalid XML characters - https://stackoverflow.com/questions/8733233
        return re.sub(
            '[^\\u0020-\\uD7FF\\u0009\\u000A\\u000D\\uE000-\\uFFFD\\U00010000-\\U0010FFFF]+',
            '',
            result
        )
"""))
R("e-concat-range", (CO, """        blocks = []
        # split payload_data into 1 MB blocks (spec default)
        i = 0
        while i < len(payload_data):
            blocks.append(Container(block_data=payload_data[i:i + 2**20]))
            i += 2**20
        blocks.append(Container(block_data=b''))

        return blocks
""", """        size = 1 << 20
        chunks = [payload_data[i:i + size] for i in range(0, len(payload_data), size)]
        return [Container(block_data=chunk) for chunk in chunks + [b'']]
"""))
R("e-concat-shrink", (CO, """        # split payload_data into 1 MB blocks (spec default)
        i = 0
        while i < len(payload_data):
            blocks.append(Container(block_data=payload_data[i:i + 2**20]))
            i += 2**20
        blocks.append(Container(block_data=b''))
""", """        # split payload_data into 1 MB blocks (spec default)
        rest = payload_data
        while rest:
            block, rest = rest[:2**20], rest[2**20:]
            blocks.append(Container(block_data=block))
        blocks.append(Container(block_data=b''))
"""))
R("e-payload-cipher-helper", (CO, """        cipher = self.get_cipher(
            con.master_key,
            con._.header.value.dynamic_header.encryption_iv.data
        )
        payload_data = cipher.decrypt(payload_data)
""", """        payload_data = self._cipher(con).decrypt(payload_data)
"""), (CO, """        payload_data = self.pad(payload_data)
        cipher = self.get_cipher(
            con.master_key,
            con._.header.value.dynamic_header.encryption_iv.data
        )
        payload_data = cipher.encrypt(payload_data)

        return payload_data
""", """        return self._cipher(con).encrypt(self.pad(payload_data))

    def _cipher(self, con):
        iv = con._.header.value.dynamic_header.encryption_iv.data
        return self.get_cipher(con.master_key, iv)
"""))
R("e-payload-block-base", (CO, """class AES256Payload(DecryptedPayload):
    def get_cipher(self, master_key, encryption_iv):
        return AES.new(master_key, AES.MODE_CBC, encryption_iv)
    def pad(self, data):
        return CryptoPadding.pad(data, 16)
    def unpad(self, data):
        return CryptoPadding.unpad(data, 16)
""", """class BlockPayload(DecryptedPayload):
    block_size = 16

    def pad(self, data):
        return CryptoPadding.pad(data, self.block_size)

    def unpad(self, data):
        return CryptoPadding.unpad(data, self.block_size)


class AES256Payload(BlockPayload):
    def get_cipher(self, master_key, encryption_iv):
        return AES.new(master_key, AES.MODE_CBC, iv=encryption_iv)
"""), (CO, """class TwoFishPayload(DecryptedPayload):
    def get_cipher(self, master_key, encryption_iv):
        return Twofish.new(master_key, mode=Twofish.MODE_CBC, IV=encryption_iv)
    def pad(self, data):
        return CryptoPadding.pad(data, 16)
    def unpad(self, data):
        return CryptoPadding.unpad(data, 16)
""", """class TwoFishPayload(BlockPayload):
    def get_cipher(self, master_key, encryption_iv):
        return Twofish.new(master_key, mode=Twofish.MODE_CBC, IV=encryption_iv)
"""))
R("e-compress-oneline", (CO, """        data = compressobj.compress(data)
        data += compressobj.flush()
        return data


# -------------------- Cipher""", """        return compressobj.compress(data) + compressobj.flush()


# -------------------- Cipher"""))
R("e-stream-ciphers", (CO, """        key_hash = hashlib.sha512(protected_stream_key).digest()
        key = key_hash[:32]
        nonce = key_hash[32:44]
        return ChaCha20.new(
            key=key,
            nonce=nonce
        )
""", """        digest = hashlib.sha512(protected_stream_key).digest()
        return ChaCha20.new(key=digest[0:32], nonce=digest[32:32 + 12])
"""), (CO, """        key = hashlib.sha256(protected_stream_key).digest()
        return Salsa20.new(
            key=key,
            nonce=b'\\xE8\\x30\\x09\\x4B\\x97\\x20\\x5D\\x2A'
        )
""", """        return Salsa20.new(key=hashlib.sha256(protected_stream_key).digest(), nonce=self.nonce)
"""), (CO, """class Salsa20Stream(UnprotectedStream):
""", """class Salsa20Stream(UnprotectedStream):
    nonce = bytes.fromhex('e830094b97205d2a')

"""))
R("e-unprotect-dict", (CO, """    return Switch(
        protected_stream_id,
        {'arcfourvariant': ARCFourVariantStream(protected_stream_key, subcon),
         'salsa20': Salsa20Stream(protected_stream_key, subcon),
         'chacha20': ChaCha20Stream(protected_stream_key, subcon),
         },
        default=subcon
    )
""", """    streams = {
        'arcfourvariant': ARCFourVariantStream,
        'salsa20': Salsa20Stream,
        'chacha20': ChaCha20Stream,
    }
    cases = {name: stream(protected_stream_key, subcon) for name, stream in streams.items()}
    return Switch(protected_stream_id, cases, default=subcon)
"""))

# ------------------------------------------------------------------ kdbx3/kdbx4
R("e-k4-transformed-early", (K4, """    key_composite = compute_key_composite(
        password=context._._.password,
        keyfile=context._._.keyfile
    )
    kdf_parameters = context._.header.value.dynamic_header.kdf_parameters.data.dict

    if context._._.transformed_key is not None:
        transformed_key = context._._.transformed_key
    elif kdf_parameters['$UUID'].value in (kdf_uuids['argon2'], kdf_uuids['argon2id']):
        transformed_key = argon2.low_level.hash_secret_raw(
            secret=key_composite,
            salt=kdf_parameters['S'].value,
            hash_len=32,
            type=(argon2.low_level.Type.ID if kdf_parameters['$UUID'].value == kdf_uuids['argon2id'] else argon2.low_level.Type.D),
            time_cost=kdf_parameters['I'].value,
            memory_cost=kdf_parameters['M'].value // 1024,
            parallelism=kdf_parameters['P'].value,
            version=kdf_parameters['V'].value
        )
    elif kdf_parameters['$UUID'].value == kdf_uuids['aeskdf']:
        key_composite = compute_key_composite(
            password=context._._.password,
            keyfile=context._._.keyfile
        )
        transformed_key = aes_kdf(
            kdf_parameters['S'].value,
            kdf_parameters['R'].value,
            key_composite
        )
    else:
        raise Exception('Unsupported key derivation method')

    return transformed_key
""", """    options = context._._
    key_composite = compute_key_composite(password=options.password, keyfile=options.keyfile)
    if options.transformed_key is not None:
        return options.transformed_key

    items = context._.header.value.dynamic_header.kdf_parameters.data.dict
    kdf = items['$UUID'].value
    argon2_types = {
        kdf_uuids['argon2']: argon2.low_level.Type.D,
        kdf_uuids['argon2id']: argon2.low_level.Type.ID,
    }

    if kdf in argon2_types:
        return argon2.low_level.hash_secret_raw(
            secret=key_composite,
            salt=items['S'].value,
            hash_len=32,
            type=argon2_types[kdf],
            time_cost=items['I'].value,
            memory_cost=items['M'].value // 1024,
            parallelism=items['P'].value,
            version=items['V'].value
        )
    if kdf == kdf_uuids['aeskdf']:
        return aes_kdf(items['S'].value, items['R'].value, key_composite)
    raise Exception('Unsupported key derivation method')
"""))
R("e-k4-hmac-key", (K4, """    return hmac.new(
        hashlib.sha512(
            b'\\xff' * 8 +
            hashlib.sha512(
                context._.header.value.dynamic_header.master_seed.data +
                context.transformed_key +
                b'\\x01'
            ).digest()
        ).digest(),
        context._.header.data,
        hashlib.sha256
    ).digest()
""", """    header = context._.header
    key = hmac_block_key(
        2 ** 64 - 1,
        header.value.dynamic_header.master_seed.data,
        context.transformed_key
    )
    return hmac.new(key, header.data, hashlib.sha256).digest()


def hmac_block_key(index, master_seed, transformed_key):
    \"\"\"Key of the HMAC of a block\"\"\"
    base = hashlib.sha512(master_seed + transformed_key + b'\\x01').digest()
    return hashlib.sha512(struct.pack('<Q', index) + base).digest()
"""), (K4, """    return hmac.new(
        hashlib.sha512(
            struct.pack('<Q', this._index) +
            hashlib.sha512(
                this._._.header.value.dynamic_header.master_seed.data +
                this._.transformed_key + b'\\x01'
            ).digest()
        ).digest(),
        struct.pack('<Q', this._index) +
        struct.pack('<I', len(this.block_data)) +
        this.block_data, hashlib.sha256
    ).digest()
""", """    key = hmac_block_key(
        this._index,
        this._._.header.value.dynamic_header.master_seed.data,
        this._.transformed_key
    )
    mac = hmac.new(key, digestmod=hashlib.sha256)
    mac.update(struct.pack('<QI', this._index, len(this.block_data)))
    mac.update(this.block_data)
    return mac.digest()
"""))
R("e-k4-named-predicates", (K4, """EncryptedPayload = Concatenated(RepeatUntil(
    lambda item, a, b: len(item.block_data) == 0,
    EncryptedPayloadBlock
))
""", """def is_last_block(block, blocks, context):
    return not block.block_data


EncryptedPayload = Concatenated(RepeatUntil(is_last_block, EncryptedPayloadBlock))
"""), (K4, """DynamicHeader = DynamicDict(
    'id',
    RepeatUntil(
        lambda item, a, b: item.id == 'end',
        DynamicHeaderItem
    )
)
""", """def is_end(item, items, context):
    return item.id == 'end'


DynamicHeader = DynamicDict('id', RepeatUntil(is_end, DynamicHeaderItem))
"""))
R("e-k4-body-helpers", (K4, """    "sha256" / Checksum(
        Bytes(32),
        lambda data: hashlib.sha256(data).digest(),
        this._.header.data,
        # exception=HeaderChecksumError,
    ),
    "cred_check" / If(this._._.decrypt,
        Checksum(
            Bytes(32),
            compute_header_hmac_hash,
            this,
            # exception=CredentialsError,
        )
    ),
    "payload" / If(this._._.decrypt,
        UnpackedPayload(
            IfThenElse(
                this._.header.value.dynamic_header.compression_flags.data.compression,
                Decompressed(DecryptedPayload),
                DecryptedPayload
            )
        )
    )
)
""", """    "sha256" / HeaderHash,
    "cred_check" / If(this._._.decrypt, HeaderHmac),
    "payload" / If(this._._.decrypt, UnpackedPayload(MaybeCompressed))
)
"""), (K4, """# -------------------- Main KDBX Structure --------------------
""", """HeaderHash = Checksum(Bytes(32), lambda data: hashlib.sha256(data).digest(), this._.header.data)
HeaderHmac = Checksum(Bytes(32), compute_header_hmac_hash, this)

MaybeCompressed = IfThenElse(
    this._.header.value.dynamic_header.compression_flags.data.compression,
    Decompressed(DecryptedPayload),
    DecryptedPayload
)

# -------------------- Main KDBX Structure --------------------
"""))
R("e-k3-transformed", (K3, """    if context._._.transformed_key is not None:
        transformed_key = context._._.transformed_key
    else:
        key_composite = compute_key_composite(
            password=context._._.password,
            keyfile=context._._.keyfile
        )
        transformed_key = aes_kdf(
            context._.header.value.dynamic_header.transform_seed.data,
            context._.header.value.dynamic_header.transform_rounds.data,
            key_composite
        )

    return transformed_key
""", """    opts, header = context._._, context._.header.value.dynamic_header
    if opts.transformed_key is None:
        return aes_kdf(
            key=header.transform_seed.data,
            rounds=header.transform_rounds.data,
            key_composite=compute_key_composite(opts.password, opts.keyfile)
        )
    return opts.transformed_key
"""))
R("e-k3-block-hash", (K3, """        IfThenElse(
            len_(this.block_data) == 0,
            Checksum(
                Bytes(32),
                lambda _: b'\\x00' * 32,
                this
            ),
            Checksum(
                Bytes(32),
                lambda block_data: hashlib.sha256(block_data).digest(),
                this.block_data,
                # exception=PayloadChecksumError
            )
        )
""", """        Checksum(Bytes(32), compute_block_hash, this)
"""), (K3, """# encrypted payload is split into multiple data blocks with hashes
PayloadBlock""", """def compute_block_hash(block):
    if len(block.block_data) == 0:
        return bytes(32)
    return hashlib.sha256(block.block_data).digest()


# encrypted payload is split into multiple data blocks with hashes
PayloadBlock"""))
R("e-k3-payload-names", (K3, """            XML(
                IfThenElse(
                    this._._.header.value.dynamic_header.compression_flags.data.compression,
                    Decompressed(Concatenated(PayloadBlocks)),
                    Concatenated(PayloadBlocks)
                )
            )
""", """            XML(Contents)
"""), (K3, """# Compressed Bytes <---> Stream Start Bytes, Decompressed XML
""", """Joined = Concatenated(PayloadBlocks)
Contents = IfThenElse(
    this._._.header.value.dynamic_header.compression_flags.data.compression,
    Decompressed(Joined),
    Joined
)

# Compressed Bytes <---> Stream Start Bytes, Decompressed XML
"""))

# ------------------------------------------------------------------ pykeepass.py
R("e-read-error-table", (PK, """        except CheckError as e:
            if e.path == '(parsing) -> header -> sig_check':
                raise HeaderChecksumError("Not a KeePass database")
            else:
                raise

        # body integrity/verification
        except ChecksumError as e:
            if e.path in (
                    '(parsing) -> body -> cred_check', # KDBX4
                    '(parsing) -> cred_check' # KDBX3
                    ):
                raise CredentialsError("Invalid credentials")
            elif e.path == '(parsing) -> body -> sha256':
                raise HeaderChecksumError("Corrupted database")
            elif e.path in (
                    '(parsing) -> body -> payload -> hmac_hash', # KDBX4
                    '(parsing) -> xml -> block_hash', # KDBX3
                    '(parsing) -> xml -> block_index' # KDBX3
                    ):
                raise PayloadChecksumError("Error reading database contents")
            else:
                raise
""", """        except CheckError as e:
            if e.path != '(parsing) -> header -> sig_check':
                raise
            raise HeaderChecksumError("Not a KeePass database") from e

        # body integrity/verification
        except ChecksumError as e:
            errors = {
                '(parsing) -> body -> cred_check': CredentialsError("Invalid credentials"),  # KDBX4
                '(parsing) -> cred_check': CredentialsError("Invalid credentials"),  # KDBX3
                '(parsing) -> body -> sha256': HeaderChecksumError("Corrupted database"),
                '(parsing) -> body -> payload -> hmac_hash': PayloadChecksumError("Error reading database contents"),
                '(parsing) -> xml -> block_hash': PayloadChecksumError("Error reading database contents"),
                '(parsing) -> xml -> block_index': PayloadChecksumError("Error reading database contents"),
            }
            if e.path not in errors:
                raise
            raise errors[e.path]
"""))
R("e-read-error-method", (PK, """        except ChecksumError as e:
            if e.path in (
                    '(parsing) -> body -> cred_check', # KDBX4
                    '(parsing) -> cred_check' # KDBX3
                    ):
                raise CredentialsError("Invalid credentials")
            elif e.path == '(parsing) -> body -> sha256':
                raise HeaderChecksumError("Corrupted database")
            elif e.path in (
                    '(parsing) -> body -> payload -> hmac_hash', # KDBX4
                    '(parsing) -> xml -> block_hash', # KDBX3
                    '(parsing) -> xml -> block_index' # KDBX3
                    ):
                raise PayloadChecksumError("Error reading database contents")
            else:
                raise
""", """        except ChecksumError as e:
            self._raise_for_checksum(e)
"""), (PK, """    def reload(self):
""", """    @staticmethod
    def _raise_for_checksum(error):
        \"\"\"Translate a failed checksum\"\"\"
        where = error.path.split(' -> ')[-1]
        known = error.path in (
            '(parsing) -> body -> cred_check', '(parsing) -> cred_check',
            '(parsing) -> body -> sha256',
            '(parsing) -> body -> payload -> hmac_hash',
            '(parsing) -> xml -> block_hash', '(parsing) -> xml -> block_index'
        )
        if not known:
            raise error
        if where == 'cred_check':
            raise CredentialsError("Invalid credentials")
        if where == 'sha256':
            raise HeaderChecksumError("Corrupted database")
        raise PayloadChecksumError("Error reading database contents")

    def reload(self):
"""))
R("e-save-finally", (PK, """            try:
                KDBX.build_file(
                    self.kdbx,
                    filename_tmp,
                    password=self.password,
                    keyfile=self.keyfile,
                    transformed_key=transformed_key,
                    decrypt=True
                )
            except Exception as e:
                filename_tmp.unlink(missing_ok=True)
                raise e
            shutil.move(filename_tmp, filename)
""", """            built = False
            try:
                KDBX.build_file(
                    self.kdbx,
                    filename_tmp,
                    password=self.password,
                    keyfile=self.keyfile,
                    transformed_key=transformed_key,
                    decrypt=True
                )
                built = True
            finally:
                if not built:
                    filename_tmp.unlink(missing_ok=True)
            shutil.move(filename_tmp, filename)
"""))
R("e-save-suffix", (PK, """            filename_tmp = Path(filename).with_name(Path(filename).name + '.tmp')
""", """            target = Path(filename)
            filename_tmp = target.parent / (target.name + '.tmp')
"""))
R("e-kdf-algorithm-reverse", (PK, """            kdf_parameters = self.kdbx.header.value.dynamic_header.kdf_parameters.data.dict
            if kdf_parameters['$UUID'].value == kdf_uuids['argon2']:
                return 'argon2'
            elif kdf_parameters['$UUID'].value == kdf_uuids['argon2id']:
                return 'argon2id'
            elif kdf_parameters['$UUID'].value == kdf_uuids['aeskdf']:
                return 'aeskdf'
""", """            kdf_parameters = self.kdbx.header.value.dynamic_header.kdf_parameters.data.dict
            names = {value: name for name, value in kdf_uuids.items()}
            return names.get(kdf_parameters['$UUID'].value)
"""))
R("e-payload-simple", (PK, """        if self.kdbx.body.payload is None:
            raise ValueError("Database is not decrypted")
        else:
            return self.kdbx.body.payload
""", """        payload = self.kdbx.body.payload
        if payload is not None:
            return payload
        raise ValueError("Database is not decrypted")
"""))
R("e-meta-helper", (PK, """        elem = self._xpath('/KeePassFile/Meta/DatabaseName', first=True)
        return elem.text

    @database_name.setter
    def database_name(self, name):
        item = self._xpath('/KeePassFile/Meta/DatabaseName', first=True)
        item.text = str(name)
""", """        return self._meta('DatabaseName').text

    @database_name.setter
    def database_name(self, name):
        self._meta('DatabaseName').text = str(name)

    def _meta(self, tag):
        return self._xpath('/KeePassFile/Meta/' + tag, first=True)
"""), (PK, """        elem = self._xpath('/KeePassFile/Meta/DefaultUserName', first=True)
        return elem.text

    @default_username.setter
    def default_username(self, name):
        item = self._xpath('/KeePassFile/Meta/DefaultUserName', first=True)
        item.text = str(name)
""", """        return self._meta('DefaultUserName').text

    @default_username.setter
    def default_username(self, name):
        self._meta('DefaultUserName').text = str(name)
"""))
R("e-xpath-cast-helper", (PK, """        res = []
        for e in elements:
            if cast:
                if e.tag == 'Entry':
                    res.append(Entry(element=e, kp=self))
                elif e.tag == 'Group':
                    res.append(Group(element=e, kp=self))
                elif e.tag == 'Binary' and e.getparent().tag == 'Entry':
                    res.append(Attachment(element=e, kp=self))
                else:
                    raise Exception('Could not cast element {}'.format(e))
            else:
                res.append(e)

        # return first object in list or None
        if first:
            res = res[0] if res else None

        return res

    _xpath = xpath
""", """        res = [self._cast(e) for e in elements] if cast else list(elements)

        if not first:
            return res
        # return first object in list or None
        return next(iter(res), None)

    def _cast(self, element):
        \"\"\"Object for an Entry, Group or attachment element\"\"\"
        if element.tag == 'Entry':
            return Entry(element=element, kp=self)
        if element.tag == 'Group':
            return Group(element=element, kp=self)
        if element.tag == 'Binary' and element.getparent().tag == 'Entry':
            return Attachment(element=element, kp=self)
        raise Exception('Could not cast element {}'.format(element))

    _xpath = xpath
"""))
R("e-find-path-parts", (PK, """            xp += '/KeePassFile/Root/Group'
            # split provided path into group and element
            group_path = path[:-1]
            element = path[-1] if len(path) > 0 else ''
            # build xpath from group_path and element
            for group in group_path:
                xp += fill(path_xp[regex]['group'], group, flags=flags)
            if 'Entry' in prefix:
                xp += fill(path_xp[regex]['entry'], element, flags=flags)
            elif element and 'Group' in prefix:
                xp += fill(path_xp[regex]['group'], element, flags=flags)
""", """            templates = path_xp[regex]
            *group_path, element = path if len(path) > 0 else ['']
            parts = ['/KeePassFile/Root/Group']
            parts.extend(fill(templates['group'], group, flags=flags) for group in group_path)
            if 'Entry' in prefix:
                parts.append(fill(templates['entry'], element, flags=flags))
            elif element and 'Group' in prefix:
                parts.append(fill(templates['group'], element, flags=flags))
            xp = ''.join(parts)
"""))
R("e-find-filters", (PK, """            # handle searching custom string fields
            if 'string' in kwargs:
                for key, value in (kwargs['string'] or {}).items():
                    xp += fill(keys_xp[regex]['string'], key, value, flags=flags)

                kwargs.pop('string')
""", """            # handle searching custom string fields
            strings = kwargs.pop('string', None) or {}
            for key in strings:
                xp += fill(keys_xp[regex]['string'], key, strings[key], flags=flags)
"""), (PK, """            for key, value in kwargs.items():
                if key not in keys_xp[regex]:
                    raise TypeError('Invalid keyword argument "{}"'.format(key))
                if value is not None:
                    xp += fill(keys_xp[regex][key], value, flags=flags)
""", """            known = keys_xp[regex]
            for key, value in kwargs.items():
                if key not in known:
                    raise TypeError('Invalid keyword argument "{}"'.format(key))
                if value is None:
                    continue
                xp += fill(known[key], value, flags=flags)
"""))
R("e-find-partial", (PK, """        prefix = '//Entry' if recursive else '/Entry'
        res = self._find(prefix, entry_xp, path=path, tree=group, **kwargs)

        return res


    def add_entry""", """        return self._search('Entry', entry_xp, recursive, path, group, **kwargs)

    def _search(self, tag, templates, recursive, path, tree, **kwargs):
        axis = '//' if recursive else '/'
        return self._find(axis + tag, templates, path=path, tree=tree, **kwargs)

    def add_entry"""), (PK, """        prefix = '//Group' if recursive else '/Group'
        res = self._find(prefix, group_xp, path=path, tree=group, **kwargs)
        return res
""", """        return self._search('Group', group_xp, recursive, path, group, **kwargs)
"""))
R("e-recycle-parent", (PK, """        if entry_or_group == self.root_group:
            return False
        recyclebin_group = self.recyclebin_group
        if recyclebin_group is None:
            return True
        uuid_str = base64.b64encode( entry_or_group.uuid.bytes).decode('utf-8')
        elem = self._xpath('./UUID[text()="{}"]/..'.format(uuid_str), tree=recyclebin_group._element, first=True, cast=False)
        return elem is None
""", """        if entry_or_group == self.root_group:
            return False
        bin_group = self.recyclebin_group
        return bin_group is None or entry_or_group.uuid != bin_group.uuid
"""))
R("e-recycle-create", (PK, """        existing_group = self.recyclebin_group
        if existing_group is not None:
            return existing_group
        kwargs.setdefault('group_name', 'Recycle Bin')
        group = self.add_group( self.root_group, **kwargs)
        elem = self._xpath('/KeePassFile/Meta/RecycleBinUUID', first=True)
        elem.text = base64.b64encode(group.uuid.bytes).decode('utf-8')
        return group
""", """        group = self.recyclebin_group
        if group is None:
            options = {'group_name': 'Recycle Bin'}
            options.update(kwargs)
            group = self.add_group(self.root_group, **options)
            meta = self._xpath('/KeePassFile/Meta', first=True)
            meta.find('RecycleBinUUID').text = base64.b64encode(group.uuid.bytes).decode('ascii')
        return group
"""))
R("e-trash-common", (PK, """        if not self._can_be_moved_to_recyclebin(group):
            raise UnableToSendToRecycleBin
        recyclebin_group = self._create_or_get_recyclebin_group()
        self.move_group( group, recyclebin_group)
""", """        self._trash(group)

    def _trash(self, item):
        if self._can_be_moved_to_recyclebin(item):
            self._create_or_get_recyclebin_group().append(item)
        else:
            raise UnableToSendToRecycleBin
"""), (PK, """        if not self._can_be_moved_to_recyclebin(entry):
            raise UnableToSendToRecycleBin
        recyclebin_group = self._create_or_get_recyclebin_group()
        self.move_entry( entry, recyclebin_group)
""", """        self._trash(entry)
"""))
R("e-empty-snapshot", (PK, """        while len(group.subgroups):
            self.delete_group(group.subgroups[0])
        while len(group.entries):
            self.delete_entry(group.entries[0])
""", """        for child in [*group.subgroups, *group.entries]:
            child.delete()
"""))
R("e-add-entry-guard", (PK, """        entries = self.find_entries(
            title=title,
            username=username,
            first=True,
            group=destination_group,
            recursive=False
        )

        if entries and not force_creation:
            raise Exception(
                'An entry "{}" already exists in "{}"'.format(
                    title, destination_group
                )
            )
        else:
            logger.debug('Creating a new entry')
            entry = Entry(
                title=title,
                username=username,
                password=password,
                notes=notes,
                otp=otp,
                url=url,
                tags=tags,
                expires=True if expiry_time else False,
                expiry_time=expiry_time,
                icon=icon,
                kp=self
            )
            destination_group.append(entry)

        return entry
""", """        if not force_creation:
            twin = self.find_entries(
                title=title,
                username=username,
                group=destination_group,
                recursive=False,
                first=True
            )
            if twin is not None:
                raise Exception('An entry "{}" already exists in "{}"'.format(title, destination_group))

        logger.debug('Creating a new entry')
        fields = dict(title=title, username=username, password=password, notes=notes, otp=otp, url=url)
        entry = Entry(
            tags=tags,
            expires=bool(expiry_time),
            expiry_time=expiry_time,
            icon=icon,
            kp=self,
            **fields
        )
        destination_group.append(entry)
        return entry
"""))
R("e-binaries-methods", (PK, """        if self.version >= (4, 0):
            # first byte is a prepended flag
            binaries = [a.data[1:] for a in self.payload.inner_header.binary]
        else:
            binaries = []
            elems = self._xpath('/KeePassFile/Meta/Binaries/Binary')
            for elem in sorted(elems, key=lambda elem: int(elem.attrib['ID'])):
                if elem.text is not None:
                    if elem.get('Compressed') == 'True':
                        data = zlib.decompress(
                            base64.b64decode(elem.text),
                            zlib.MAX_WBITS | 32
                        )
                    else:
                        data = base64.b64decode(elem.text)
                else:
                    data = b''
                binaries.append(data)

        return binaries
""", """        if self.version >= (4, 0):
            # first byte is a prepended flag
            return [a.data[1:] for a in self.payload.inner_header.binary]
        return [self._binary_data(elem) for elem in self._binary_elements()]

    def _binary_elements(self):
        elems = list(self._xpath('/KeePassFile/Meta/Binaries/Binary'))
        elems.sort(key=lambda elem: int(elem.get('ID')))
        return elems

    @staticmethod
    def _binary_data(elem):
        if elem.text is None:
            return b''
        data = base64.b64decode(elem.text)
        if elem.attrib.get('Compressed') != 'True':
            return data
        return zlib.decompress(data, zlib.MAX_WBITS | 32)
"""), (PK, """                binaries = sorted(
                    self._xpath('/KeePassFile/Meta/Binaries/Binary'),
                    key=lambda elem: int(elem.attrib['ID'])
                )
                removed""", """                binaries = self._binary_elements()
                removed"""))
R("e-add-binary-split", (PK, """            data = b'\\x01' + data if protected else b'\\x00' + data
            # add binary element to inner header
            c = Container(type='binary', data=data)
            self.payload.inner_header.binary.append(c)
""", """            flag = b'\\x01' if protected else b'\\x00'
            # add binary element to inner header
            stored = self.payload.inner_header.binary
            stored.append(Container(type='binary', data=flag + data))
            return len(stored) - 1
"""))
R("e-delete-binary-else", (PK, """        for reference in self.find_attachments(id=id, history=True):
            reference.delete()

        # decrement references greater than this id
        binaries_gt = self._xpath(
            '//Binary/Value[@Ref > "{}"]/..'.format(id),
            cast=True
        )
        for reference in binaries_gt:
            reference.id = reference.id - 1
""", """        references = self.find_attachments(filename='.*', regex=True, history=True)
        for reference in references:
            if reference.id == id:
                reference.delete()
            elif reference.id > id:
                reference.id -= 1
"""))
R("e-deref-split", (PK, """            if wanted_field == 'uuid':
                wanted_value = ref_entry.uuid.hex.upper()
            else:
                wanted_value = self._deref(getattr(ref_entry, wanted_field) or '', parents + (ref,))
            if wanted_value is None:
                return None
            value = value.replace(ref, wanted_value)
        return value
""", """            if wanted_field != 'uuid':
                wanted_value = self._deref(getattr(ref_entry, wanted_field) or '', (*parents, ref))
                if wanted_value is None:
                    return None
            else:
                wanted_value = ref_entry.uuid.hex.upper()
            value = value.replace(ref, wanted_value)
        return value
"""))
R("e-deref-map-global", (PK, """        field_to_attribute = {
            'T': 'title',
            'U': 'username',
            'P': 'password',
            'A': 'url',
            'N': 'notes',
            'I': 'uuid',
        }
        for ref""", """        for ref"""), (PK, """            wanted_field = field_to_attribute[wanted_field]
            search_in = field_to_attribute[search_in]
""", """            wanted_field = REF_FIELDS[wanted_field]
            search_in = REF_FIELDS[search_in]
"""), (PK, """class PyKeePass""", """# letters in field references
REF_FIELDS = dict(T='title', U='username', P='password', A='url', N='notes', I='uuid')


class PyKeePass"""))
R("e-time-epoch", (PK, """            diff_seconds = int(
                (
                    value -
                    datetime(
                        year=1,
                        month=1,
                        day=1,
                        tzinfo=timezone.utc
                    )
                ).total_seconds()
            )
            return base64.b64encode(
                struct.pack('<Q', diff_seconds)
            ).decode('utf-8')
        else:
            return value.isoformat()
""", """            seconds = (value - self._epoch()) // timedelta(seconds=1)
            packed = struct.pack('<Q', seconds)
            return base64.b64encode(packed).decode('ascii')
        return value.isoformat()

    @staticmethod
    def _epoch():
        return datetime(1, 1, 1, tzinfo=timezone.utc)
"""))
R("e-time-frombytes", (PK, """            try:
                return (
                    datetime(year=1, month=1, day=1, tzinfo=timezone.utc) +
                    timedelta(
                        seconds=struct.unpack('<Q', base64.b64decode(text))[0]
                    )
                )
            except (BinasciiError, struct.error):
                return self._decode_iso_time(text)
        else:
            return self._decode_iso_time(text)
""", """            try:
                seconds, = struct.unpack('<Q', base64.b64decode(text))
            except (BinasciiError, struct.error):
                pass
            else:
                return datetime(1, 1, 1, tzinfo=timezone.utc) + timedelta(seconds=seconds)
        return self._decode_iso_time(text)
"""))
R("e-cred-older", (PK, """        change_date = self.credchange_date
        if change_date is None or self.credchange_required_days == -1:
            return False
        now_date = datetime.now(timezone.utc)
        return (now_date - change_date).days > self.credchange_required_days
""", """        return self._credentials_older_than(self.credchange_required_days)
"""), (PK, """        change_date = self.credchange_date
        if change_date is None or self.credchange_recommended_days == -1:
            return False
        now_date = datetime.now(timezone.utc)
        return (now_date - change_date).days > self.credchange_recommended_days
""", """        return self._credentials_older_than(self.credchange_recommended_days)

    def _credentials_older_than(self, days):
        changed = self.credchange_date
        if days == -1 or changed is None:
            return False
        age = datetime.now(timezone.utc) - changed
        return age.days > days
"""))
R("e-cred-days-helper", (PK, """        e = self._xpath('/KeePassFile/Meta/MasterKeyChangeForce', first=True)
        if e is not None:
            return int(e.text)
""", """        return self._days('MasterKeyChangeForce')

    def _days(self, tag):
        element = self.tree.find('/Meta/' + tag) if False else self._xpath('/KeePassFile/Meta/' + tag, first=True)
        return int(element.text) if element is not None else None
"""))
R("e-create-with", (PK, """    keepass_instance = PyKeePass(
        BLANK_DATABASE_LOCATION, BLANK_DATABASE_PASSWORD
    )

    keepass_instance.filename = filename
    keepass_instance.password = password
    keepass_instance.keyfile = keyfile

    keepass_instance.save(transformed_key=transformed_key)
    return keepass_instance
""", """    with PyKeePass(BLANK_DATABASE_LOCATION, password=BLANK_DATABASE_PASSWORD) as database:
        database.filename = filename
        for name, value in (('password', password), ('keyfile', keyfile)):
            setattr(database, name, value)
        database.save(filename, transformed_key)
    return database
"""))

# ------------------------------------------------------------------ the same rewrites with a slip in them
_DEL = """        for reference in self.find_attachments(id=id, history=True):
            reference.delete()

        # decrement references greater than this id
        binaries_gt = self._xpath(
            '//Binary/Value[@Ref > "{}"]/..'.format(id),
            cast=True
        )
        for reference in binaries_gt:
            reference.id = reference.id - 1
"""
_ONE = """        for reference in %s:
            if reference.id %s id:
                reference.delete()
            elif reference.id %s:
                reference.id -= 1
"""
_ALL = "self.find_attachments(filename='.*', regex=True, history=True)"
M("C21", "e-delete-one-attachments", (PK, _DEL, _ONE % ("self.attachments", "==", "> id")))
M("C21", "e-delete-one-le", (PK, _DEL, _ONE % (_ALL, "<=", "> id")))
M("C21", "e-delete-one-gt1", (PK, _DEL, _ONE % (_ALL, "==", "> id + 1")))
M("C21", "e-add-len", (PK, """            data = b'\\x01' + data if protected else b'\\x00' + data
            # add binary element to inner header
            c = Container(type='binary', data=data)
            self.payload.inner_header.binary.append(c)
""", """            flag = b'\\x01' if protected else b'\\x00'
            stored = self.payload.inner_header.binary
            stored.append(Container(type='binary', data=flag + data))
            return len(stored)
"""))
_CUT = """        # split payload_data into 1 MB blocks (spec default)
        i = 0
        while i < len(payload_data):
            blocks.append(Container(block_data=payload_data[i:i + 2**20]))
            i += 2**20
        blocks.append(Container(block_data=b''))
"""
M("C08", "e-concat-shrink-gap", (CO, _CUT, """        rest = payload_data
        while rest:
            blocks.append(Container(block_data=rest[:2**20 - 1]))
            rest = rest[2**20:]
        blocks.append(Container(block_data=b''))
"""))
M("C08", "e-concat-shrink-last", (CO, _CUT, """        rest = payload_data
        while len(rest) > 2**20:
            blocks.append(Container(block_data=rest[:2**20]))
            rest = rest[2**20:]
        blocks.append(Container(block_data=b''))
"""))
M("C06", "e-aeskdf-while-once-more", (CO, """    transformed_key = key_composite
    for _ in range(0, rounds):
        transformed_key = cipher.encrypt(transformed_key)
""", """    transformed_key = key_composite
    while rounds >= 0:
        transformed_key = cipher.encrypt(transformed_key)
        rounds -= 1
"""))
M("C19", "e-empty-entries-only-first", (PK, """        while len(group.subgroups):
            self.delete_group(group.subgroups[0])
        while len(group.entries):
            self.delete_entry(group.entries[0])
""", """        for child in [*group.subgroups, *group.entries[:1000]]:
            child.delete()
"""))
M("C26", "e-delete-custom-prefix", (EN, """        prop = self._xpath(fill('String/Key[text()="{}"]/..', key), first=True)
        if prop is None:
            raise AttributeError('Could not find property element')
        self._element.remove(prop)
""", """        for string in self._element.findall('String'):
            if string.find('Key').text.startswith(key):
                self._element.remove(string)
"""))
R("e-expired-timestamp", (BE, "            return (\n                datetime.now(timezone.utc) >\n                self.expiry_time\n            )", "            return datetime.now(timezone.utc).timestamp() > self.expiry_time.timestamp()"))
