"""In-memory fsspec file system under control of the check (protocol vpfs)."""
import io

import fsspec
from fsspec.spec import AbstractFileSystem


class Fault(OSError):
    """The injected failure."""


class _W(io.BytesIO):
    def __init__(self, fs, path, data=b""):
        super().__init__()
        self._fs, self._path = fs, path
        super().write(data)
        self._store = VpFS.files
        VpFS.files[path] = data         # created or cut to nothing as soon as it is opened
        VpFS.live[id(self)] = self

    def write(self, b):
        if self._store is VpFS.files:
            VpFS.event("write", self._path, bytes(b))
        return super().write(b)

    def close(self):
        # a writer left over from before the last reset() belongs to nobody
        if not self.closed and self._store is VpFS.files:
            VpFS.event("close", self._path, None)
            VpFS.files[self._path] = self.getvalue()
            VpFS.live.pop(id(self), None)
        super().close()


class _R(io.BytesIO):
    def __init__(self, path, data):
        super().__init__(data)
        self._path = path

    def read(self, *a):
        VpFS.event("read", self._path, a)
        return super().read(*a)


class VpFS(AbstractFileSystem):
    protocol = "vpfs"
    root_marker = "/"
    cachable = False
    files = {}
    live = {}          # open writers; their data reaches files on close
    hook = None
    order = None       # optional function that permutes directory listings

    @classmethod
    def event(cls, op, path, arg):
        if cls.hook is not None:
            cls.hook(op, path, arg)

    @classmethod
    def _strip_protocol(cls, path):
        if isinstance(path, list):
            return [cls._strip_protocol(p) for p in path]
        if path.startswith("vpfs://"):
            path = path[len("vpfs://"):]
        path = "/" + path.strip("/")
        return path

    def ls(self, path, detail=True, **kw):
        path = self._strip_protocol(path)
        VpFS.event("ls", path, None)
        if path in self.files:
            out = [{"name": path, "size": len(self.files[path]), "type": "file"}]
            return out if detail else [path]
        pre = "/" if path == "/" else path + "/"
        seen = {}
        for f in self.files:
            if f.startswith(pre):
                rest = f[len(pre):]
                if "/" in rest:
                    d = pre + rest.split("/")[0]
                    seen[d] = {"name": d, "size": 0, "type": "directory"}
                else:
                    seen[f] = {"name": f, "size": len(self.files[f]), "type": "file"}
        if not seen:
            raise FileNotFoundError(path)
        out = sorted(seen.values(), key=lambda x: x["name"])
        if VpFS.order:
            out = VpFS.order(out)
        return out if detail else [x["name"] for x in out]

    def info(self, path, **kw):
        path = self._strip_protocol(path)
        if path in self.files:
            return {"name": path, "size": len(self.files[path]), "type": "file"}
        if any(f.startswith(path.rstrip("/") + "/") for f in self.files):
            return {"name": path, "size": 0, "type": "directory"}
        raise FileNotFoundError(path)

    def _open(self, path, mode="rb", **kw):
        path = self._strip_protocol(path)
        VpFS.event("open", path, mode)
        if "r" in mode:
            if path not in self.files:
                raise FileNotFoundError(path)
            return _R(path, self.files[path])
        return _W(self, path, self.files.get(path, b"") if "a" in mode else b"")

    def makedirs(self, path, exist_ok=False):
        pass

    def mkdir(self, path, create_parents=True, **kw):
        pass

    def rm_file(self, path):
        path = self._strip_protocol(path)
        VpFS.event("rm", path, None)
        if path not in self.files:
            raise FileNotFoundError(path)
        del self.files[path]

    def mv(self, path1, path2, **kw):
        a, b = self._strip_protocol(path1), self._strip_protocol(path2)
        VpFS.event("mv", a, b)
        if a not in self.files:
            raise FileNotFoundError(a)
        self.files[b] = self.files.pop(a)

    _rm = rm_file


fsspec.register_implementation("vpfs", VpFS, clobber=True)


def reset(files=None):
    VpFS.files = {VpFS._strip_protocol(k): v for k, v in (files or {}).items()}
    VpFS.live = {}
    VpFS.hook = None
    VpFS.order = None
