class Element:
    """xml.etree.ElementTree.Element: a tag, a dictionary of attributes, an ordered list of children"""
    def __init__(self, tag):
        self.tag = tag
        self.attrib = {}
        self.children = []

    def append(self, child):
        self.children.append(child)

    def __iter__(self):
        return iter(self.children)
