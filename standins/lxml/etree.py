"""Stand-in for the part of lxml.etree used by oq-commons: a SAX parser of
the Java runtime building plain elements. No schema validation."""
from java.io import ByteArrayInputStream
from javax.xml.parsers import SAXParserFactory
from org.xml.sax import SAXException
from org.xml.sax.helpers import DefaultHandler


class XMLSyntaxError(SyntaxError):
    pass


class Element(object):
    def __init__(self, tag, attrib=None, **extra):
        self.tag = tag
        self.attrib = dict(attrib or {}, **extra)
        self.text = None
        self.tail = None
        self.sourceline = None
        self.children = []
        self.parent = None

    def get(self, name, default=None):
        return self.attrib.get(name, default)

    def __iter__(self):
        return iter(list(self.children))

    def __len__(self):
        return len(self.children)

    def __nonzero__(self):
        return bool(self.children)

    def __getitem__(self, i):
        return self.children[i]

    def append(self, child):
        child.parent = self
        self.children.append(child)

    def remove(self, child):
        self.children.remove(child)
        child.parent = None

    def getchildren(self):
        return list(self.children)

    def getparent(self):
        return self.parent

    def getprevious(self):
        if self.parent is None:
            return None
        i = self.parent.children.index(self)
        return self.parent.children[i - 1] if i else None

    def getnext(self):
        if self.parent is None:
            return None
        i = self.parent.children.index(self) + 1
        c = self.parent.children
        return c[i] if i < len(c) else None

    def clear(self):
        self.children = []
        self.attrib = {}
        self.text = self.tail = None

    def iter(self, tag=None):
        if tag is None or self.tag == tag:
            yield self
        for c in self.children:
            for x in c.iter(tag):
                yield x

    def _steps(self, path, namespaces):
        out, cur = [], ''
        depth = 0
        for ch in path:
            if ch == '{':
                depth += 1
            elif ch == '}':
                depth -= 1
            if ch == '/' and not depth:
                out.append(cur)
                cur = ''
            else:
                cur += ch
        out.append(cur)
        names = []
        for s in out:
            if ':' in s and not s.startswith('{'):
                p, n = s.split(':')
                s = '{%s}%s' % (namespaces[p], n)
            names.append(s)
        return names

    def findall(self, path, namespaces=None):
        cur = [self]
        deep = False
        steps = self._steps(path, namespaces)
        if path.startswith('//'):
            steps = steps[1:]
        for s in steps:
            if s == '.':
                continue
            if s == '':
                deep = True
                continue
            new = []
            for e in cur:
                pool = list(e.iter())[1:] if deep else e.children
                new += [c for c in pool
                        if (s == '*' or c.tag == s) and c not in new]
            cur, deep = new, False
        return cur

    def find(self, path, namespaces=None):
        r = self.findall(path, namespaces)
        return r[0] if r else None

    def findtext(self, path, default=None, namespaces=None):
        r = self.find(path, namespaces)
        return default if r is None else (r.text or '')

    def iterfind(self, path, namespaces=None):
        return iter(self.findall(path, namespaces))

    def iterchildren(self, tag=None):
        return iter([c for c in self.children if tag in (None, c.tag)])

    def xpath(self, path, namespaces=None):
        return self.findall(path, namespaces)


def SubElement(parent, tag, attrib=None, **extra):
    e = Element(tag, attrib, **extra)
    parent.append(e)
    return e


class _Handler(DefaultHandler):
    def __init__(self):
        self.root = None
        self.stack = []
        self.events = []
        self.locator = None

    def setDocumentLocator(self, locator):
        self.locator = locator

    def startElement(self, uri, local, qname, attrs):
        tag = u'{%s}%s' % (uri, local) if uri else local
        e = Element(_str(tag), dict(
            (_str(attrs.getQName(i)), _str(attrs.getValue(i)))
            for i in range(attrs.getLength())))
        e.sourceline = self.locator.getLineNumber() if self.locator else 0
        if self.stack:
            self.stack[-1].append(e)
        else:
            self.root = e
        self.stack.append(e)

    def endElement(self, uri, local, qname):
        self.events.append(('end', self.stack.pop()))

    def characters(self, chars, start, length):
        text = _str(u''.join(unichr(ord(c)) for c in
                             chars[start:start + length]))
        top = self.stack[-1]
        if top.children:
            last = top.children[-1]
            last.tail = (last.tail or '') + text
        else:
            top.text = (top.text or '') + text

    def fatalError(self, e):
        raise XMLSyntaxError(e.getMessage())


def _str(u):
    try:
        return str(u)
    except UnicodeError:
        return u


def _parse(data):
    if isinstance(data, unicode):
        data = data.encode('utf-8')
    h = _Handler()
    f = SAXParserFactory.newInstance()
    f.setNamespaceAware(True)
    try:
        f.newSAXParser().parse(ByteArrayInputStream(data), h)
    except SAXException as e:
        raise XMLSyntaxError(e.getMessage())
    return h


def _read(source):
    if hasattr(source, 'read'):
        return source.read()
    with open(source) as f:
        return f.read()


class XMLSchema(object):
    def __init__(self, etree=None, file=None):
        pass


class XMLParser(object):
    def __init__(self, **kw):
        pass


def fromstring(text, parser=None):
    return _parse(text).root


XML = fromstring


class ElementTree(object):
    def __init__(self, root):
        self.root = root

    def getroot(self):
        return self.root

    def xpath(self, path, namespaces=None):
        if path.startswith('//'):
            name = self.root._steps(path[2:], namespaces)[0]
            pre = [self.root] if self.root.tag == name else []
            if '/' in path[2:]:
                top = Element('')
                top.children = [self.root]
                return top.findall(path, namespaces)
            return pre + self.root.findall(path, namespaces)
        return self.root.findall(path, namespaces)

    findall = xpath

    def iter(self, tag=None):
        return self.root.iter(tag)


def parse(source, parser=None):
    return ElementTree(_parse(_read(source)).root)


def _match(tag, pattern):
    if pattern is None:
        return True
    if pattern.endswith('}*'):
        return tag.startswith(pattern[:-1])
    return tag == pattern


class iterparse(object):
    """the events come one by one; a broken document fails at the end of
    the well formed part"""
    def __init__(self, source, events=('end',), tag=None, schema=None):
        h = _Handler()
        f = SAXParserFactory.newInstance()
        f.setNamespaceAware(True)
        self.error = None
        data = _read(source)
        if isinstance(data, unicode):
            data = data.encode('utf-8')
        try:
            f.newSAXParser().parse(ByteArrayInputStream(data), h)
        except (SAXException, XMLSyntaxError) as e:
            self.error = XMLSyntaxError(str(e))
        self.events = [(k, e) for k, e in h.events if _match(e.tag, tag)]

    def __iter__(self):
        return self

    def next(self):
        if self.events:
            return self.events.pop(0)
        if self.error is not None:
            raise self.error
        raise StopIteration
