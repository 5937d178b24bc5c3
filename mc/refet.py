"""Reference XML reader: ElementTree, reduced to local names; comments and processing instructions dropped."""
import xml.parsers.expat
import xml.etree.ElementTree as ET
from .observe import merge


def local(name):
    return name.rpartition('}')[2]


def canon(e):
    kids = [e.text or '']
    for c in e:
        if isinstance(c.tag, str):
            kids.append(canon(c))
        kids.append(c.tail or '')
    attrs = {}
    clash = False
    for k, v in e.attrib.items():
        attrs[local(k)] = v
    return (local(e.tag), tuple(attrs.items()), merge(kids))


def clash(e):
    """Attributes of the same local name in different namespaces: what becomes of them is not specified"""
    return any(len({local(k) for k in x.attrib}) != len(x.attrib) for x in e.iter())


def odd_namespace(source):
    """Namespace names with white space are no URI references, and processors may reject them (expat does, depending on its separator)"""
    uris = []
    p = xml.parsers.expat.ParserCreate(namespace_separator='}')
    p.StartNamespaceDeclHandler = lambda prefix, uri: uris.append(uri)
    p.Parse(source, True)
    return any(u and (set(u) & set(' \t\n\r')) for u in uris)


def parse(source):
    """('yes', tree) | ('no', None) | ('may', None)"""
    try:
        e = ET.fromstring(source)
    except (ET.ParseError, ValueError, LookupError):
        return 'no', None
    if clash(e) or ('xmlns' in source if isinstance(source, str) else b'xmlns' in source) and odd_namespace(source):
        return 'may', None
    return 'yes', canon(e)


def events(t, ancestors=()):
    if isinstance(t, str):
        yield ('c', t)
        return
    yield ('s', t[0], t[1], ancestors)
    for c in t[2]:
        yield from events(c, ancestors + (t[0],))
    yield ('e', t[0], ancestors)
