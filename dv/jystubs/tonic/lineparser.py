# Stand-in for the absent third-party module tonic.lineparser (assumed contract; listed in the evidence).
import re


class LineParser(object):
  """each match of the patterns in a line is handed to the handlers of the named groups that took part"""
  _first = ''
  _last = ''

  def parse(self, line):
    if self.__dict__.get('_compiled') is None:
      self._compiled = re.compile('|'.join([p for p in (self._first, self._last) if p]))
    for matchobj in self._compiled.finditer(line):
      d = matchobj.groupdict()
      for name in sorted(d.keys()):
        if d[name]:
          handler = getattr(self, 'handle_' + name, None)
          if handler:
            handler(d[name], matchobj)
