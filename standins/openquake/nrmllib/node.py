"""Stand-in for openquake.nrmllib.node: generic nodes of a document."""
from xml.sax.saxutils import escape, quoteattr
from lxml import etree
from openquake import nrmllib


class Node(object):
    __slots__ = ('tag', 'attrib', 'text', 'nodes')

    def __init__(self, tag, attrib=None, text=None, nodes=None):
        self.tag = tag
        self.attrib = {} if attrib is None else attrib
        self.text = text
        self.nodes = [] if nodes is None else nodes

    def __getattr__(self, name):
        if name.startswith('__') or name in Node.__slots__:
            raise AttributeError(name)
        for node in self.nodes:
            if node.tag == name:
                return node
        raise NameError('No subnode named %r found in %r' %
                        (name, self.tag))

    def getnodes(self, name):
        return [n for n in self.nodes if n.tag == name]

    def append(self, node):
        self.nodes.append(node)

    def __iter__(self):
        return iter(self.nodes)

    def __getitem__(self, i):
        if isinstance(i, basestring):
            return self.attrib[i]
        return self.nodes[i]

    def __setitem__(self, i, value):
        if isinstance(i, basestring):
            self.attrib[i] = value
        else:
            self.nodes[i] = value

    def __len__(self):
        return len(self.nodes)

    def __nonzero__(self):
        return True

    def __repr__(self):
        return '<%s %s>' % (self.tag, self.attrib)


def striptag(tag):
    return tag.rsplit('}')[-1]


def node_from_elem(elem, nodefactory=Node):
    return nodefactory(
        striptag(elem.tag), dict(elem.attrib), elem.text,
        nodes=[node_from_elem(c, nodefactory) for c in elem])


def node_from_xml(xmlfile, nodefactory=Node):
    return node_from_elem(etree.parse(xmlfile).getroot(), nodefactory)


node_from_nrml = node_from_xml


def _write(node, out, ns=''):
    out.write('<%s%s%s>' % (node.tag, ns, ''.join(
        ' %s=%s' % (k, quoteattr(str(v)))
        for k, v in sorted(node.attrib.items()))))
    if node.text:
        out.write(escape(str(node.text)))
    for n in node.nodes:
        _write(n, out)
    out.write('</%s>' % node.tag)


def node_to_nrml(node, output, nsmap=None):
    assert isinstance(node, Node), node
    root = Node('nrml', nodes=[node])
    output.write('<?xml version="1.0" encoding="utf-8"?>')
    _write(root, output, ' xmlns="%s"' % nrmllib.NAMESPACE)
