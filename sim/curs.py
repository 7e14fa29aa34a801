"""A terminal for runs that are not headless: counts what the program does to it."""
import curses, sys

T = dict(open=0, init=0, end=0, writes=0, misuse=[], fail_at=0)


class Screen(object):
    def clear(self):
        self._use('clear')

    erase = clear

    def _use(self, what):
        if not T['open']:
            T['misuse'].append(what)

    def addstr(self, *a):
        self._use('addstr')
        T['writes'] += 1
        if T['fail_at'] and T['writes'] == T['fail_at']:
            raise curses.error('addwstr() returned ERR')       # what a terminal too small for the message does

    def refresh(self):
        self._use('refresh')

    def __getattr__(self, k):
        return lambda *a, **kw: None


def install(fail_at=0):
    """In a node. endwin() before initscr() is an error, as in the real library."""
    T.update(open=0, init=0, end=0, writes=0, misuse=[], fail_at=fail_at)

    def initscr():
        T['init'] += 1
        T['open'] = 1
        return Screen()

    def endwin():
        T['end'] += 1
        if not T['init']:
            raise curses.error('must call initscr() first')
        T['open'] = 0

    def isendwin():
        if not T['init']:
            raise curses.error('must call initscr() first')
        return not T['open']
    curses.initscr, curses.endwin, curses.isendwin = initscr, endwin, isendwin


def state():
    return dict(T, misuse=list(T['misuse']))
