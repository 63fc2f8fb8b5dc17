"""Classes whose loaders call back into the harness while they are dumped or loaded."""
from hickle.helpers import PyContainer
from hickle.lookup import LoaderManager

CALL = None          # function (key, where) called by the loaders


def call(key, where):
    if CALL is not None:
        CALL(int(key), where)


class Base:
    def __init__(self, key, payload):
        self.key, self.payload = key, payload

    def __hv_capture__(self):
        return [int(self.key), self.payload]


class Data(Base):
    """stored as a dataset"""


class Group(Base):
    """stored as a group"""


class Pickled(Base):
    """no loader"""

    def __reduce__(self):
        call(self.key, "reduce")
        return Pickled, (0, None), dict(key=self.key, payload=self.payload)

    def __setstate__(self, st):
        self.__dict__.update(st)
        call(self.key, "setstate")


def create_data(o, h_group, name, **kwargs):
    call(o.key, "create")
    d = h_group.create_dataset(name, data=o.payload)
    d.attrs["key"] = o.key
    call(o.key, "created")
    return d, ()


def load_data(h_node, base_type, py_obj_type):
    call(h_node.attrs["key"], "load")
    o = py_obj_type(int(h_node.attrs["key"]), h_node[()].decode())
    call(o.key, "loaded")
    return o


def create_group(o, h_group, name, **kwargs):
    g = h_group.create_group(name)
    g.attrs["key"] = o.key

    def items():
        call(o.key, "sub")
        yield "payload", o.payload, {}, kwargs
        call(o.key, "subbed")
    call(o.key, "create")
    return g, items()


class GroupContainer(PyContainer):
    def __init__(self, h5_attrs, base_type, object_type):
        super().__init__(h5_attrs, base_type, object_type)
        call(h5_attrs["key"], "init")

    def filter(self, h_parent):
        call(self._h5_attrs["key"], "filter")
        yield from super().filter(h_parent)
        call(self._h5_attrs["key"], "filtered")

    def append(self, name, item, h5_attrs):
        call(self._h5_attrs["key"], "append")
        super().append(name, item, h5_attrs)

    def convert(self):
        call(self._h5_attrs["key"], "convert")
        return self.object_type(int(self._h5_attrs["key"]), self._content[0])


def register():
    LoaderManager.register_class(Data, b"hv_data", create_data, load_data, None, True)
    LoaderManager.register_class(Group, b"hv_group", create_group, None, GroupContainer, True)


WHERE = {("dump", Data): ("create", "created"), ("load", Data): ("load", "loaded"), ("dump", Group): ("create", "sub", "subbed"),
         ("load", Group): ("init", "filter", "filtered", "append", "convert"), ("dump", Pickled): ("reduce",), ("load", Pickled): ("setstate",)}
