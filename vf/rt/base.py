"""Base of the run-time contracts: Bad = the property is violated on this case."""
import io


class Bad(Exception):
    pass


def need(cond, msg, *a):
    if not cond:
        raise Bad(msg % a if a else msg)


def eq(got, want, msg, *a):
    if got != want:
        m = msg % a if a else msg
        raise Bad("%s: got %s, expected %s" % (m, repr(got)[:160], repr(want)[:160]))


def raises(exc, fn, msg):
    try:
        r = fn()
    except exc:
        return
    except Exception as e:  # noqa
        raise Bad("%s: raised %s(%s) instead of %s" % (msg, type(e).__name__, e, exc))
    raise Bad("%s: accepted (%s)" % (msg, repr(r)[:80]))


def write_with(dm, fn, cls=None, prefix=b""):
    """run fn(writer) on a memory stream, close it, return the bytes"""
    buf = io.BytesIO()
    buf.write(prefix)
    w = (cls or dm.dfwriter.DFWriter)(buf, noclose=True)
    fn(w)
    w.close()
    return buf.getvalue()


def reader(dm, data, start=0, cls=None):
    buf = io.BytesIO(data)
    buf.seek(start)
    return (cls or dm.dfreader.DFReader)(buf)
