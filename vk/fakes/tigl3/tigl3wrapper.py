"""
Stand-in for the TiGL 3 Python binding (not installed here).  TiGL derives surface points from profiles, sections and
positionings; the stand-in reads them from a table in the document (/cpacs/toolspecific/vk, JSON), so that the reader
is given a wing whose geometry is known.
"""
import json


class Tigl3Exception(Exception):
    pass


class Tigl3:
    def open(self, tixi, uid=''):
        try:
            self._t = json.loads(tixi.getTextElement('/cpacs/toolspecific/vk'))
        except Exception as e:
            raise Tigl3Exception(str(e))

    def close(self):
        self._t = None

    def _get(self, seq, i):
        if not 1 <= i <= len(seq):
            raise Tigl3Exception(f'index {i}')
        return seq[i - 1]

    def getWingCount(self):
        return len(self._t)

    def wingGetUID(self, w):
        return self._get(self._t, w)['uid']

    def wingGetSymmetry(self, w):
        return self._get(self._t, w)['symmetry']

    def wingGetSegmentCount(self, w):
        return len(self._get(self._t, w)['segments'])

    def _seg(self, w, s):
        return self._get(self._get(self._t, w)['segments'], s)

    def wingGetSegmentUID(self, w, s):
        return self._seg(w, s)['uid']

    def _point(self, w, s, eta, xsi, side):
        g = self._seg(w, s)
        if not (0 <= eta <= 1 and 0 <= xsi <= 1):
            raise Tigl3Exception('outside of the segment')
        corner = {(0, 0): 'a', (1, 0): 'b', (1, 1): 'c', (0, 1): 'd'}
        if (eta, xsi) in corner:
            mid = g['v'][corner[eta, xsi]]
        else:
            a, b, c, d = (g['v'][k] for k in 'abcd')
            mid = [(1 - eta)*((1 - xsi)*a[i] + xsi*d[i]) + eta*((1 - xsi)*b[i] + xsi*c[i]) for i in range(3)]
        half = g['t'][1 if xsi > 0.5 else 0]
        return tuple(m + side*h for m, h in zip(mid, half))

    def wingGetUpperPoint(self, w, s, eta, xsi):
        return self._point(w, s, eta, xsi, 1)

    def wingGetLowerPoint(self, w, s, eta, xsi):
        return self._point(w, s, eta, xsi, -1)

    def wingGetInnerSectionAndElementIndex(self, w, s):
        return tuple(self._seg(w, s)['inner'])

    def wingGetOuterSectionAndElementIndex(self, w, s):
        return tuple(self._seg(w, s)['outer'])

    def wingGetProfileName(self, w, section, element):
        try:
            return self._get(self._t, w)['profiles'][f'{section},{element}']
        except KeyError:
            raise Tigl3Exception('no such section element')

    def wingGetComponentSegmentCount(self, w):
        return len(self._get(self._t, w)['comps'])

    def wingGetComponentSegmentUID(self, w, c):
        return self._get(self._get(self._t, w)['comps'], c)['uid']

    def wingComponentSegmentPointGetSegmentEtaXsi(self, uid, eta, xsi):
        for w in self._t:
            for c in w['comps']:
                if c['uid'] == uid:
                    table = c['table']
                    if not table:
                        raise Tigl3Exception('empty component segment')
                    row = min(table, key=lambda r: abs(r['eta'] - eta))
                    pts = sorted([[0.0, 0.0], [1.0, 1.0]] + row['xsi'])
                    for (x0, y0), (x1, y1) in zip(pts, pts[1:]):
                        if x0 <= xsi <= x1:
                            if xsi == x0:
                                y = y0
                            elif xsi == x1:
                                y = y1
                            else:
                                y = y0 + (xsi - x0)/(x1 - x0)*(y1 - y0)
                            return w['uid'], row['segment'], row['seta'], y
                    raise Tigl3Exception('outside of the component segment')
        raise Tigl3Exception(f'no component segment {uid!r}')
