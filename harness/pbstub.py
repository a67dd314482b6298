"""A model of the messages of hiku/protobuf/query.proto for the symbolic
execution; import before hiku.export.protobuf and hiku.readers.protobuf.

Messages keep what was put into them and follow the rules of proto3 for
presence (a message field is present once something inside of it was set or
it was cleared, a string field is empty by default) and for oneofs.  The
wire format (SerializeToString, FromString) is assumed to be lossless.
Replays use the real messages."""
from google.protobuf import json_format
from hiku.protobuf import query_pb2

_real = {n: getattr(query_pb2, n) for n in ('Node', 'Item', 'Field', 'Link')}
_parse_dict = json_format.ParseDict
_message_to_dict = json_format.MessageToDict
MODE = {'symbolic': False}


def use(s):
    MODE['symbolic'] = s.symbolic


class Message:
    def __init__(self, parent=None, slot=None, **kw):
        self._parent = parent
        self._slot = slot
        self._values = {}           # fields which are present
        self._children = {}         # messages which may be not present yet
        for k, v in kw.items():
            if isinstance(v, Message):
                getattr(self, k).CopyFrom(v)
            elif isinstance(v, (list, tuple)):
                getattr(self, k).extend(v)
            else:
                setattr(self, k, v)

    SCALARS = {}
    MESSAGES = {}
    REPEATED = {}
    ONEOF = ()

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        if name in self._values:
            return self._values[name]
        if name in self.SCALARS:
            return self.SCALARS[name]
        if name in self.REPEATED:
            if name not in self._children:
                self._children[name] = Repeated(self, self.REPEATED[name])
            return self._children[name]
        if name in self.MESSAGES:
            if name not in self._children:
                self._children[name] = TYPES[self.MESSAGES[name]](self, name)
            return self._children[name]
        raise AttributeError(name)

    def __setattr__(self, name, value):
        if name.startswith('_'):
            object.__setattr__(self, name, value)
            return
        if name not in self.SCALARS:
            raise AttributeError(name)
        if isinstance(self.SCALARS[name], str):
            if not isinstance(value, str):
                raise TypeError(name)
        elif isinstance(value, str):
            raise TypeError(name)
        self._set(name, value)

    def _set(self, name, value):
        if name in self.ONEOF:
            for other in self.ONEOF:
                if other != name:
                    self._values.pop(other, None)
                    self._children.pop(other, None)
        self._values[name] = value
        self._modified()

    def _modified(self):
        if self._parent is not None:
            if self._slot is not None:
                if self._slot not in self._parent._values:
                    self._parent._set(self._slot, self)
            else:
                self._parent._modified()

    SetInParent = _modified

    def HasField(self, name):
        if name not in self.MESSAGES and name not in self.ONEOF:
            raise ValueError(name)
        return name in self._values

    def WhichOneof(self, name):
        for n in self.ONEOF:
            if n in self._values:
                return n
        return None

    def ClearField(self, name):
        self._values.pop(name, None)
        self._children.pop(name, None)
        self._modified()

    def Clear(self):
        self._values.clear()
        self._children.clear()
        self._modified()

    def CopyFrom(self, other):
        self.Clear()
        self.MergeFrom(other)

    def MergeFrom(self, other):
        for k, v in other._values.items():
            if isinstance(v, Message):
                getattr(self, k).MergeFrom(v)
                getattr(self, k)._modified()
            else:
                setattr(self, k, v)
        for k, v in other._children.items():
            if isinstance(v, Repeated):
                getattr(self, k).extend(v)
            elif isinstance(v, Map):
                for x in v:
                    getattr(self, k)[x].CopyFrom(v[x])

    def SerializeToString(self, **kw):
        return Wire(self)

    @classmethod
    def FromString(cls, data):
        m = cls()
        m.MergeFrom(data.message)
        return m


class Wire(bytes):
    def __new__(cls, message):
        self = bytes.__new__(cls, b'<message>')
        self.message = type(message)()
        self.message.MergeFrom(message)
        return self


class Repeated:
    def __init__(self, parent, kind):
        self._parent = parent
        self._kind = kind
        self._items = []

    def add(self, **kw):
        m = TYPES[self._kind](self._parent, None, **kw)
        self._items.append(m)
        self._parent._modified()
        return m

    def extend(self, items):
        for i in items:
            self.add().MergeFrom(i)

    def append(self, item):
        self.add().MergeFrom(item)

    def __iter__(self):
        return iter(self._items)

    def __len__(self):
        return len(self._items)

    def __getitem__(self, i):
        return self._items[i]


class Map:
    def __init__(self, parent):
        self._parent = parent
        self._items = {}

    def __getitem__(self, key):
        if not isinstance(key, str):
            raise TypeError(key)
        if key not in self._items:
            self._items[key] = Value(self._parent, None)
            self._parent._modified()
        return self._items[key]

    def __iter__(self):
        return iter(self._items)

    def __contains__(self, key):
        return key in self._items

    def __len__(self):
        return len(self._items)

    def keys(self):
        return self._items.keys()

    def items(self):
        return self._items.items()


class Struct(Message):
    def __getattr__(self, name):
        if name == 'fields':
            if name not in self._children:
                self._children[name] = Map(self)
            return self._children[name]
        return Message.__getattr__(self, name)

    def __getitem__(self, key):
        return plain(self.fields[key])

    def __setitem__(self, key, value):
        put(value, self.fields[key])

    def __contains__(self, key):
        return key in self.fields

    def __iter__(self):
        return iter(self.fields)

    def __len__(self):
        return len(self.fields)

    def keys(self):
        return self.fields.keys()

    def items(self):
        return [(k, plain(v)) for k, v in self.fields.items()]

    def update(self, d):
        for k, v in d.items():
            self[k] = v


class ListValue(Message):
    REPEATED = {'values': 'Value'}


class Value(Message):
    ONEOF = ('null_value', 'number_value', 'string_value', 'bool_value',
             'struct_value', 'list_value')
    SCALARS = {'null_value': 0, 'number_value': 0.0, 'string_value': '',
               'bool_value': False}
    MESSAGES = {'struct_value': 'Struct', 'list_value': 'ListValue'}


class Field(Message):
    SCALARS = {'name': ''}
    MESSAGES = {'options': 'Struct'}


class Link(Message):
    SCALARS = {'name': ''}
    MESSAGES = {'options': 'Struct', 'node': 'Node'}


class Item(Message):
    ONEOF = ('field', 'link')
    MESSAGES = {'field': 'Field', 'link': 'Link'}


class Node(Message):
    REPEATED = {'items': 'Item'}


TYPES = {'Field': Field, 'Link': Link, 'Item': Item, 'Node': Node,
         'Struct': Struct, 'Value': Value, 'ListValue': ListValue}


def put(v, m):
    if isinstance(v, dict):
        put_struct(v, m.struct_value)
    elif isinstance(v, list):
        m.list_value.ClearField('values')
        for x in v:
            put(x, m.list_value.values.add())
    elif v is None:
        m.null_value = 0
    elif isinstance(v, bool):
        m.bool_value = v
    elif isinstance(v, str):
        m.string_value = v
    elif isinstance(v, (int, float)):
        m.number_value = v
    else:
        raise json_format.ParseError('Value has unexpected type')


def put_struct(d, m):
    if not isinstance(d, dict):
        raise json_format.ParseError('Struct must be in a dict')
    m.Clear()
    for k in d:
        put(d[k], m.fields[k])


def plain(m):
    which = m.WhichOneof('kind')
    if which is None or which == 'null_value':
        return None
    if which == 'struct_value':
        return plain_struct(m.struct_value)
    if which == 'list_value':
        return [plain(x) for x in m.list_value.values]
    return getattr(m, which)


def plain_struct(m):
    return {k: plain(v) for k, v in m.fields.items()}


def ParseDict(js, message, *args, **kw):
    if isinstance(message, Struct):
        put_struct(js, message)
        return message
    return _parse_dict(js, message, *args, **kw)


def MessageToDict(message, *args, **kw):
    if isinstance(message, Struct):
        return plain_struct(message)
    return _message_to_dict(message, *args, **kw)


json_format.ParseDict = ParseDict
json_format.MessageToDict = MessageToDict


class Chooser:
    def __init__(self, name):
        self._name = name

    def __call__(self, *args, **kw):
        return self._cls()(*args, **kw)

    def _cls(self):
        return TYPES[self._name] if MODE['symbolic'] else _real[self._name]

    def __getattr__(self, name):
        return getattr(self._cls(), name)


for _n in _real:
    setattr(query_pb2, _n, Chooser(_n))
