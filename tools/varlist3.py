"""Third set: behaviour-keeping rewrites in several styles."""
from varlist import R, M, PK, EN, GR, BE, AT, XP, CO, K3, K4, KX, DP, SAVE

# ------------------------------------------------------------------ entry.py
R("d-entry-field-lookup", (EN, """        field = self._xpath(fill('String/Key[text()="{}"]/../Value', key), history=True, first=True)
        if field is not None:
            return field.text
""", """        field = self._find_string(key, '/Value')
        return None if field is None else field.text

    def _find_string(self, key, suffix=''):
        \"\"\"First String element (or a part of it) with the given key\"\"\"
        matches = self._xpath(fill('String/Key[text()="{}"]/..', key) + suffix)
        return matches[0] if matches else None
"""), (EN, """        field = self._xpath(fill('String/Key[text()="{}"]/..', key), history=True, first=True)

        protected_str""", """        field = self._find_string(key)

        protected_str"""),
  (EN, """            protected_field = self._xpath(fill('String/Key[text()="{}"]/../Value', key), first=True)
            if protected_field is not None:
                protected_str = protected_field.attrib.get("Protected")
""", """            value_element = self._find_string(key, '/Value')
            if value_element is not None:
                protected_str = value_element.get("Protected")
"""))
R("d-entry-new-attrs", (EN, """        if protected_str is None:
            new = E.String(E.Key(key), E.Value(value))
        else:
            new = E.String(E.Key(key), E.Value(value, Protected=protected_str))
""", """        attributes = {} if protected_str is None else {'Protected': protected_str}
        new = E.String(E.Key(key), E.Value(value, **attributes))
"""))
R("d-entry-password-arg", (EN, """        if self.password:
            return self._set_string_field('Password', value)
        else:
            return self._set_string_field('Password', value, True)
""", """        self._set_string_field('Password', value, None if self.password else True)
"""), (EN, """        if self.otp:
            return self._set_string_field('otp', value)
        else:
            return self._set_string_field('otp', value, True)
""", """        protected = None if self.otp else True
        self._set_string_field('otp', value, protected=protected)
"""))
R("d-entry-tags", (EN, """        val = self._get_subelement_text('Tags')
        return val.replace(',', ';').split(';') if val else []
""", """        text = self._get_subelement_text('Tags')
        if not text:
            return []
        return text.replace(',', ';').split(';')
"""), (EN, """        v = sep.join(value if isinstance(value, list) else [value])
        return self._set_subelement_text('Tags', v)
""", """        if not isinstance(value, list):
            value = [value]
        return self._set_subelement_text('Tags', sep.join(value))
"""))
R("d-entry-history-find", (EN, """        if self._element.find('History') is not None:
            return [HistoryEntry(element=x, kp=self._kp) for x in self._element.find('History').findall('Entry')]
        else:
            return []
""", """        items = []
        history = self._element.find('History')
        if history is None:
            return items
        for element in history.findall('Entry'):
            items.append(HistoryEntry(element=element, kp=self._kp))
        return items
"""))
R("d-entry-history-path", (EN, """        if self._element.find('History') is not None:
            return [HistoryEntry(element=x, kp=self._kp) for x in self._element.find('History').findall('Entry')]
        else:
            return []
""", """        return [HistoryEntry(element=x, kp=self._kp) for x in self._element.findall('History/Entry')]
"""))
R("d-entry-save-history", (EN, """        archive = deepcopy(self._element)
        hist = archive.find('History')
        if hist is not None:
            archive.remove(hist)
            self._element.find('History').append(archive)
        else:
            history = Element('History')
            history.append(archive)
            self._element.append(history)
""", """        archive = deepcopy(self._element)
        for nested in archive.findall('History'):
            archive.remove(nested)
        history = self._element.find('History')
        if history is None:
            history = Element('History')
            self._element.append(history)
        history.append(archive)
"""))
R("d-entry-custom-dict", (EN, """        keys = self._get_string_field_keys(exclude_reserved=True)
        props = {}
        for k in keys:
            props[k] = self._get_string_field(k)
        return props
""", """        return {
            key: self._get_string_field(key)
            for key in self._get_string_field_keys(exclude_reserved=True)
        }
"""), (EN, """        results = [x.find('Key').text for x in self._element.findall('String')]
        if exclude_reserved:
            return [x for x in results if x not in reserved_keys]
        else:
            return results
""", """        keys = (string.find('Key').text for string in self._element.findall('String'))
        return [key for key in keys if not (exclude_reserved and key in reserved_keys)]
"""))
R("d-entry-reserved-helper", (EN, """        assert key not in reserved_keys, '{} is a reserved key'.format(key)
        return self._set_string_field(key, value, protect)
""", """        _check_key(key)
        return self._set_string_field(key, value, protect)
"""), (EN, """        assert key not in reserved_keys, '{} is a reserved key'.format(key)
        return self._get_string_field(key)
""", """        _check_key(key)
        return self._get_string_field(key)
"""), (EN, """        assert key not in reserved_keys, '{} is a reserved key'.format(key)
        return self._is_property_protected(key)
""", """        _check_key(key)
        return self._is_property_protected(key)
"""), (EN, """class Entry(BaseElement):

    def __init__""", """def _check_key(key):
    assert key not in reserved_keys, '{} is a reserved key'.format(key)


class Entry(BaseElement):

    def __init__"""))
R("d-entry-delete-custom", (EN, """        if key not in self._get_string_field_keys(exclude_reserved=True):
            raise AttributeError('No such key: {}'.format(key))
        prop = self._xpath(fill('String/Key[text()="{}"]/..', key), first=True)
        if prop is None:
            raise AttributeError('Could not find property element')
        self._element.remove(prop)
""", """        if key in self._get_string_field_keys(exclude_reserved=True):
            for string in self._element.findall('String'):
                if string.find('Key').text == key:
                    self._element.remove(string)
                    return
        raise AttributeError('No such key: {}'.format(key))
"""))
R("d-entry-autotype-text", (EN, """        sequence = self._element.find('AutoType/DefaultSequence')
        if sequence is None or sequence.text == '':
            return None
        return sequence.text

    @autotype_sequence.setter""", """        return self._autotype_text('DefaultSequence')

    def _autotype_text(self, path):
        element = self._element.find('AutoType/' + path)
        if element is not None and element.text != '':
            return element.text
        return None

    @autotype_sequence.setter"""), (EN, """        sequence = self._element.find('AutoType/Association/Window')
        if sequence is None or sequence.text == '':
            return None
        return sequence.text
""", """        return self._autotype_text('Association/Window')
"""), (EN, """        enabled = self._element.find('AutoType/Enabled')
        if value is not None:
            enabled.text = str(value)
        else:
            enabled.text = None
""", """        self._element.find('AutoType/Enabled').text = None if value is None else str(value)
"""))
R("d-entry-path-reverse", (EN, """        p = self.parentgroup
        path = [self.title]
        while p is not None and not p.is_root_group:
            if p.name is not None:  # dont make the root group appear
                path.insert(0, p.name)
            p = p.parentgroup
        return path
""", """        parts = [self.title]
        parent = self.parentgroup
        while parent is not None and not parent.is_root_group:
            if parent.name is not None:
                parts.append(parent.name)
            parent = parent.parentgroup
        parts.reverse()
        return parts
"""))
R("d-entry-path-group", (EN, """        if self.parentgroup is None:
            return None
        p = self.parentgroup
        path = [self.title]
        while p is not None and not p.is_root_group:
            if p.name is not None:  # dont make the root group appear
                path.insert(0, p.name)
            p = p.parentgroup
        return path
""", """        parent = self.parentgroup
        if parent is None:
            return None
        names = []
        while not (parent is None or parent.is_root_group):
            if parent.name is not None:
                names = [parent.name] + names
            parent = parent.parentgroup
        return names + [self.title]
"""))
R("d-entry-reindex", (EN, """        group = self.group._element
        first_index = self.group._first_entry
        group.remove(self._element)
        group.insert(new_index+first_index, self._element)
""", """        group = self.group
        position = group._first_entry + new_index
        group._element.remove(self._element)
        group._element.insert(position, self._element)
"""), (EN, """        group = self.group._element
        children = group.getchildren()
        first_index = self.group._first_entry
        index = children.index(self._element)
        return index - first_index
""", """        group = self.group
        return list(group._element).index(self._element) - group._first_entry
"""))
R("d-entry-ctor-helper", (EN, """            self._element.append(E.String(E.Key('Title'), E.Value(title)))
            self._element.append(E.String(E.Key('UserName'), E.Value(username)))
            self._element.append(
                E.String(E.Key('Password'), E.Value(password, Protected="True"))
            )
            if url:
                self._element.append(E.String(E.Key('URL'), E.Value(url)))
            if notes:
                self._element.append(E.String(E.Key('Notes'), E.Value(notes)))
            if otp:
                self._element.append(
                    E.String(E.Key('otp'), E.Value(otp, Protected="True"))
                )
""", """            self._element.append(_string('Title', title))
            self._element.append(_string('UserName', username))
            self._element.append(_string('Password', password, protected=True))
            for key, value in (('URL', url), ('Notes', notes)):
                if value:
                    self._element.append(_string(key, value))
            if otp:
                self._element.append(_string('otp', otp, protected=True))
"""), (EN, """class Entry(BaseElement):

    def __init__""", """def _string(key, value, protected=False):
    element = E.String(E.Key(key), E.Value(value))
    if protected:
        element.find('Value').set('Protected', 'True')
    return element


class Entry(BaseElement):

    def __init__"""))
R("d-entry-ref-const", (EN, """        attribute_to_field = {
            'title': 'T',
            'username': 'U',
            'password': 'P',
            'url': 'A',
            'notes': 'N',
            'uuid': 'I',
        }
        return '{{REF:{}@I:{}}}'.format(attribute_to_field[attribute], self.uuid.hex.upper())
""", """        field = REFERENCE_FIELDS[attribute]
        return '{REF:%s@I:%s}' % (field, str(self.uuid.hex).upper())
"""), (EN, """class Entry(BaseElement):

    def __init__""", """REFERENCE_FIELDS = dict(title='T', username='U', password='P', url='A', notes='N', uuid='I')


class Entry(BaseElement):

    def __init__"""))
# ------------------------------------------------------------------ baseelement.py
R("d-base-times-helper", (BE, """        times = self._element.find('Times')
        if times is not None:
            prop = times.find(prop)
            if prop is not None and prop.text is not None:
                return self._kp._decode_time(prop.text)
""", """        element = self._times_element(prop)
        if element is None or element.text is None:
            return None
        return self._kp._decode_time(element.text)

    def _times_element(self, tag):
        times = self._element.find('Times')
        return None if times is None else times.find(tag)
"""), (BE, """        times = self._element.find('Times')
        if times is not None:
            prop = times.find(prop)
            if prop is not None:
                prop.text = self._kp._encode_time(value)
""", """        element = self._times_element(prop)
        if element is not None:
            element.text = self._kp._encode_time(value)
"""))
R("d-base-times-path", (BE, """        times = self._element.find('Times')
        if times is not None:
            prop = times.find(prop)
            if prop is not None and prop.text is not None:
                return self._kp._decode_time(prop.text)
""", """        text = self._element.findtext('Times/' + prop)
        if text:
            return self._kp._decode_time(text)
"""), (BE, """        times = self._element.find('Times')
        if times is not None:
            prop = times.find(prop)
            if prop is not None:
                prop.text = self._kp._encode_time(value)
""", """        element = self._element.find('Times/{}'.format(prop))
        if element is not None:
            element.text = self._kp._encode_time(value)
"""))
R("d-base-subelement", (BE, """        new = getattr(E, tag)(value)
        v = self._element.find(tag)
        if v is not None:
            self._element.remove(v)
        self._element.append(new)
""", """        replacement = E(tag, value)
        previous = self._element.find(tag)
        if previous is not None:
            self._element.remove(previous)
        self._element.append(replacement)
"""), (BE, """        v = self._element.find(tag)
        if v is not None:
            return v.text
""", """        found = self._element.find(tag)
        return found.text if found is not None else None
"""))
R("d-base-expired", (BE, """        if self.expires:
            return (
                datetime.now(timezone.utc) >
                self.expiry_time
            )

        return False
""", """        if not self.expires:
            return False
        now = datetime.now(tz=timezone.utc)
        return self.expiry_time < now
"""), (BE, """        d = self._element.find('Times').find('Expires')
        d.text = 'True' if value else 'False'
""", """        self._element.find('Times/Expires').text = str(bool(value))
"""))
R("d-base-props", (BE, """    @property
    def ctime(self):
        \"\"\"(datetime.datetime): Creation time.\"\"\"
        return self._get_times_property('CreationTime')

    @ctime.setter
    def ctime(self, value):
        self._set_times_property('CreationTime', value)
""", """    ctime = property(
        lambda self: self._get_times_property('CreationTime'),
        lambda self, value: self._set_times_property('CreationTime', value),
        doc='(datetime.datetime): Creation time.'
    )
"""))
R("d-base-props-factory", (BE, """    @property
    def ctime(self):
        \"\"\"(datetime.datetime): Creation time.\"\"\"
        return self._get_times_property('CreationTime')

    @ctime.setter
    def ctime(self, value):
        self._set_times_property('CreationTime', value)
""", """    ctime = _time_property('CreationTime')
"""), (BE, """class BaseElement:
    \"\"\"Entry""", """def _time_property(tag):
    def get(self):
        return self._get_times_property(tag)

    def set(self, value):
        self._set_times_property(tag, value)

    return property(get, set)


class BaseElement:
    \"\"\"Entry"""))
R("d-base-init", (BE, """        current_time_str = self._kp._encode_time(datetime.now(timezone.utc))
        if expiry_time:
            expiry_time_str = self._kp._encode_time(expiry_time.astimezone(timezone.utc))
        else:
            expiry_time_str = current_time_str
""", """        now = datetime.now(timezone.utc)
        current_time_str = self._kp._encode_time(now)
        expiry_time_str = self._kp._encode_time(expiry_time.astimezone(timezone.utc) if expiry_time else now)
"""), (BE, "                E.Expires(str(expires if expires is not None else False)),\n", "                E.Expires(str(False if expires is None else expires)),\n"))
R("d-base-uuid", (BE, """        b64_uuid = base64.b64encode(uuid.bytes).decode('utf-8')
        return self._set_subelement_text('UUID', b64_uuid)
""", """        encoded = str(base64.b64encode(uuid.bytes), 'ascii')
        self._set_subelement_text('UUID', encoded)
"""), (BE, """        b64_uuid = self._get_subelement_text('UUID')
        return uuid.UUID(bytes=base64.b64decode(b64_uuid))
""", """        raw = base64.b64decode(self._get_subelement_text('UUID'))
        return uuid.UUID(bytes=raw)
"""))
# ------------------------------------------------------------------ group.py / attachment.py
R("d-group-append", (GR, """        if isinstance(entries, list):
            for e in entries:
                self._element.append(e._element)
        else:
            self._element.append(entries._element)
""", """        if not isinstance(entries, list):
            entries = [entries]
        self._element.extend([entry._element for entry in entries])
"""))
R("d-group-path", (GR, """        if self.is_root_group or self.parentgroup is None:
            return []
        p = self.parentgroup
        path = [self.name]
        while p is not None and not p.is_root_group:
            if p.name is not None:  # dont make the root group appear
                path.insert(0, p.name)
            p = p.parentgroup
        return path
""", """        if self.is_root_group:
            return []
        parent = self.parentgroup
        if parent is None:
            return []
        path = [self.name]
        while True:
            if parent is None or parent.is_root_group:
                break
            if parent.name is not None:
                path.insert(0, parent.name)
            parent = parent.parentgroup
        return path
"""))
R("d-group-first", (GR, """        children = self._element.getchildren()
        first_element = next(e for e in children if e.tag == "Entry")
        return children.index(first_element)
""", """        return next(i for i, child in enumerate(self._element) if child.tag == 'Entry')
"""))
R("d-attachment", (AT, """        try:
            return self._kp.binaries[self.id]
        except IndexError:
            raise BinaryError('No such binary with id {}'.format(self.id))
""", """        binaries, id = self._kp.binaries, self.id
        try:
            data = binaries[id]
        except IndexError:
            raise BinaryError('No such binary with id {}'.format(id)) from None
        return data
"""), (AT, "        return int(self._element.find('Value').attrib['Ref'])", "        value = self._element.find('Value')\n        return int(value.attrib['Ref'])"),
  (AT, "        self._element.find('Value').attrib['Ref'] = str(id)", "        self._element.find('Value').set('Ref', str(id))"))

