# contract on xml.etree.ElementTree (assumed): an element is a tag, attributes, text, tail and the list of its children
class Element:
    def __init__(self, tag, attrib=None, **extra):
        self.tag = tag
        self.attrib = {}
        if attrib is not None:
            for k in attrib:
                self.attrib[k] = attrib[k]
        for k in extra:
            self.attrib[k] = extra[k]
        self.text = None
        self.tail = None
        self.children = []

    def append(self, e):
        self.children.append(e)

    def insert(self, index, e):
        self.children.insert(index, e)

    def extend(self, es):
        for e in es:
            self.children.append(e)

    def set(self, key, value):
        self.attrib[key] = value

    def get(self, key, default=None):
        return self.attrib.get(key, default)


def SubElement(parent, tag, attrib=None, **extra):
    e = Element(tag, attrib, **extra)
    parent.append(e)
    return e
