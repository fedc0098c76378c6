"""
Stand-in for the TiXI 3 Python binding (not installed here): the calls a CPACS reader needs, over ElementTree.
Missing elements, attributes and files raise Tixi3Exception as in the original.
"""
import re
import xml.etree.ElementTree as ET


class Tixi3Exception(Exception):
    pass


class Tixi3:
    def __init__(self):
        self._tree = None

    # ----- documents -----
    def open(self, path, recursive=0):
        try:
            self._tree = ET.parse(path)
        except (OSError, ET.ParseError) as e:
            raise Tixi3Exception(f'open: {e}')

    def _root(self):
        if self._tree is None:
            raise Tixi3Exception('invalid handle')
        return self._tree.getroot()

    def checkDocumentHandle(self):
        return self._tree is not None

    def saveDocument(self, path):
        self._root()
        self._tree.write(path, encoding='utf-8', xml_declaration=True)

    def save(self, path, *args):
        self.saveDocument(path)

    def close(self):
        self._tree = None

    cleanup = close

    # ----- paths -----
    def _all(self, xpath):
        root = self._root()
        steps = [s.strip() for s in xpath.strip().strip('/').split('/')]
        if not re.fullmatch(re.escape(root.tag) + r'(\[1\])?', steps[0]):
            return []
        found = [root]
        for s in steps[1:]:
            m = re.fullmatch(r'([\w.:-]+|\*)(?:\[(\d+)\]|\[@uID="([^"]*)"\])?', s)
            if not m:
                raise Tixi3Exception(f'invalid path {xpath!r}')
            new = []
            for e in found:
                kids = [k for k in e if m.group(1) in ('*', k.tag)]
                if m.group(2):
                    kids = kids[int(m.group(2)) - 1:int(m.group(2))]
                if m.group(3) is not None:
                    kids = [k for k in kids if k.get('uID') == m.group(3)]
                new += kids
            found = new
        return found

    def _one(self, xpath):
        e = self._all(xpath)
        if len(e) != 1:
            raise Tixi3Exception(f'{len(e)} elements at {xpath!r}')
        return e[0]

    def checkElement(self, xpath):
        return bool(self._all(xpath))

    def checkAttribute(self, xpath, name):
        return bool(self._all(xpath)) and name in self._one(xpath).attrib

    def xPathEvaluateNodeNumber(self, xpath):
        n = len(self._all(xpath))
        if not n:
            raise Tixi3Exception(f'no element at {xpath!r}')
        return n

    def uIDCheckExists(self, uid):
        return any(e.get('uID') == uid for e in self._root().iter())

    def uIDGetXPath(self, uid):
        def walk(e, path):
            if e.get('uID') == uid:
                return path
            count = {}
            for k in e:
                count[k.tag] = count.get(k.tag, 0) + 1
                r = walk(k, f'{path}/{k.tag}[{count[k.tag]}]')
                if r:
                    return r
            return None
        r = walk(self._root(), '/' + self._root().tag)
        if r is None:
            raise Tixi3Exception(f'no uID {uid!r}')
        return r

    # ----- reading -----
    def getNumberOfChilds(self, xpath):
        return len(list(self._one(xpath)))

    def getNamedChildrenCount(self, xpath, name):
        return sum(1 for k in self._one(xpath) if k.tag == name)

    def getChildNodeName(self, xpath, index):
        return list(self._one(xpath))[index - 1].tag

    def getTextElement(self, xpath):
        return self._one(xpath).text or ''

    def getDoubleElement(self, xpath):
        try:
            return float(self._one(xpath).text)
        except (TypeError, ValueError) as e:
            raise Tixi3Exception(str(e))

    def getIntegerElement(self, xpath):
        try:
            return int(self._one(xpath).text)
        except (TypeError, ValueError) as e:
            raise Tixi3Exception(str(e))

    def getTextAttribute(self, xpath, name):
        e = self._one(xpath)
        if name not in e.attrib:
            raise Tixi3Exception(f'no attribute {name!r} at {xpath!r}')
        return e.attrib[name]

    def _vector(self, xpath):
        text = (self._one(xpath).text or '').strip().strip(';')
        try:
            return tuple(float(t) for t in text.split(';'))
        except ValueError as e:
            raise Tixi3Exception(str(e))

    def getVectorSize(self, xpath):
        return len(self._vector(xpath))

    def getFloatVector(self, xpath, n):
        v = self._vector(xpath)
        if n > len(v):
            raise Tixi3Exception('vector too short')
        return v[:n]

    # ----- writing -----
    @staticmethod
    def _text(vector, n, fmt):
        vector = [float(v) for v in vector]
        if n > len(vector):
            raise Tixi3Exception('vector too short')
        return ';'.join(fmt % v for v in vector[:n])

    def addFloatVector(self, parent, name, vector, n, format='%g'):
        ET.SubElement(self._one(parent), name, {'mapType': 'vector'}).text = self._text(vector, n, format)

    def updateFloatVector(self, xpath, vector, n, format='%g'):
        self._one(xpath).text = self._text(vector, n, format)

    def addTextElement(self, parent, name, text):
        ET.SubElement(self._one(parent), name).text = text

    def addDoubleElement(self, parent, name, value, format='%g'):
        ET.SubElement(self._one(parent), name).text = format % value

    def createElement(self, parent, name):
        ET.SubElement(self._one(parent), name)

    def updateTextElement(self, xpath, text):
        self._one(xpath).text = text

    def updateDoubleElement(self, xpath, value, format='%g'):
        self._one(xpath).text = format % value

    def removeElement(self, xpath):
        e = self._one(xpath)
        for p in self._root().iter():
            if e in list(p):
                p.remove(e)
                return
