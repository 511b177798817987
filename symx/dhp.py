"""symx.dhp - makes DHParser's leaf parsers work on text with symbolic characters.

Only the places where DHParser looks at characters are replaced (Text, RegExp,
Whitespace, SmartRE, the search methods of StringView used by the
resume machinery); control flow, memoisation, tree building, reduction,
transformation and compilation are DHParser's own code."""
from DHParser import parse as P, stringview as SV
from DHParser.nodetree import Node, EMPTY_NODE
from . import rt, rx, strops

_last = {'text': None, 'pos': -1}


def last_sym(text):
    if _last['text'] is not text:
        p = -1
        for i in range(len(text) - 1, -1, -1):
            if ord(text[i]) in rt.ctx.chars:
                p = i
                break
        _last['text'] = text
        _last['pos'] = p
    return _last['pos']


def symtext(text, location):
    return rt.ctx is not None and not text.isascii() and location <= last_sym(text)


def patch():
    if getattr(P, '_symx_patched', False):
        return
    P._symx_patched = True

    o_text, o_rx, o_ws, o_smart, o_ic = (P.Text._parse, P.RegExp._parse, P.Whitespace._parse,
                                   P.SmartRE._parse, P.IgnoreCase._parse)

    def text_parse(self, location):
        text = self._grammar.text__
        if not symtext(text, location):
            return o_text(self, location)
        location_ = location + self.len
        seg = text[location:location_]
        if seg == self.text or (len(seg) == self.len and not seg.isascii()
                                and rt.ctx.str_eq(seg, self.text)):
            if self.drop_content:
                return EMPTY_NODE, location_
            return Node(self.node_name, self.text, True), location_
        return None, location

    def ic_parse(self, location):
        text = self._grammar.text__
        if not symtext(text, location):
            return o_ic(self, location)
        location_ = location + self.len
        comp = text[location:location_]
        if len(comp) == self.len and strops.eq(rt.ctx, strops.lower(rt.ctx, comp), self.text):
            if self.drop_content:
                return EMPTY_NODE, location_
            elif self.text or not self.disposable:
                return Node(self.node_name, comp, True), location_
            return EMPTY_NODE, location
        return None, location

    def warm(self):
        if isinstance(self.regexp, P.LazyPattern):
            self.regexp.match('')

    def rx_parse(self, location):
        text = self._grammar.text__
        if not symtext(text, location):
            return o_rx(self, location)
        warm(self)
        match = rx.search(rt.ctx, self.regexp, text, location, None, 'match')
        if match:
            capture = match.group(0)
            if capture or not self.disposable:
                end = match.end()
                if self.drop_content:
                    return EMPTY_NODE, end
                return Node(self.node_name, capture, True), end
            return EMPTY_NODE, location
        return None, location

    def ws_parse(self, location):
        text = self._grammar.text__
        if not symtext(text, location):
            return o_ws(self, location)
        warm(self)
        match = rx.search(rt.ctx, self.regexp, text, location, None, 'match')
        if match:
            capture = match.group(0)
            if capture or not self.disposable:
                end = match.end()
                if self.drop_content:
                    if self.keep_comments:
                        if strops.lstrip(rt.ctx, capture):
                            name = "comment__" if self.node_name[0:1] == ":" else self.node_name
                            return Node(name, capture, True), end
                    return EMPTY_NODE, end
                return Node(self.node_name, capture, True), end
        return EMPTY_NODE, location

    def smart_parse(self, location):
        text = self._grammar.text__
        if not symtext(text, location):
            return o_smart(self, location)
        warm(self)
        match = rx.search(rt.ctx, self.regexp, text, location, None, 'match')
        if match:
            values = match.groups()
            end = match.end()
            if not self.disposable or any((content and len(content)) for content in values):
                if self.drop_content:
                    return EMPTY_NODE, end
                results = tuple(Node(name, content)
                                for (name, disposable), content in zip(self.groups, values)
                                if content is not None
                                and (((not disposable or content)
                                      and name != P.KEEP_COMMENTS_PTYPE)
                                     or strops.strip(rt.ctx, content)))
                for i, nd in enumerate(results, start=1):
                    nd._pos = match.start(i)
                return self._return_values(results), end
            return EMPTY_NODE, end
        return None, location

    P.Text._parse = text_parse
    P.IgnoreCase._parse = ic_parse
    P.RegExp._parse = rx_parse
    P.Whitespace._parse = ws_parse
    P.SmartRE._parse = smart_parse

    V = SV.StringView
    o_find, o_search, o_fi, o_match = V.find, V.search, V.finditer, V.match

    def sv_find(self, sub, start=None, end=None):
        s = str(self)
        if rt.ctx is None or s.isascii():
            return o_find(self, sub, start, end)
        return strops.find(rt.ctx, s, sub, start, end)

    def sv_search(self, regex, start=None, end=None):
        if rt.ctx is None or self._text.isascii():
            return o_search(self, regex, start, end)
        a, b = self._abs(start, end)
        return rx.search(rt.ctx, regex, self._text, a, b)

    def _abs(self, start, end):
        a = self._begin + (start or 0)
        b = self._end if end is None else min(self._end, self._begin + end)
        return a, b

    def sv_finditer(self, regex):
        if rt.ctx is None or self._text.isascii():
            return o_fi(self, regex)
        return rx.finditer(rt.ctx, regex, self._text[:self._end], self._begin)

    V._abs = _abs
    V.find = sv_find
    V.search = sv_search
    V.finditer = sv_finditer
