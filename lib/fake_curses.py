"""A terminal of 24 rows and 80 columns for the menus: answers requests from a script and keeps what was on the screen."""


class error(Exception):
    pass


class OutOfKeys(Exception):
    pass


class Session:
    """script: list of keys (str of length 1: getch) or ('text', str) for getstr"""

    def __init__(self, script, on_request):
        self.script, self.on_request, self.at = list(script), on_request, 0
        self.active = False
        self.window = None
        self.overflow = []

    def next(self, kind):
        self.on_request(self.at, kind, self.window)
        if self.at >= len(self.script):
            raise OutOfKeys('the program asks for more than the session gives')
        t = self.script[self.at]
        self.at += 1
        return t


class Window:
    ROWS, COLS = 24, 80

    def __init__(self, session):
        self.s = session
        self.writes = []

    def addstr(self, y, x, text, *attr):
        if not (0 <= y < self.ROWS and 0 <= x < self.COLS):
            self.s.overflow.append((y, x, text))
            raise error('addwstr() returned ERR')
        if x + len(text) > self.COLS * (self.ROWS - y):
            self.s.overflow.append((y, x, text))
            raise error('addwstr() returned ERR')
        self.writes.append((y, x, str(text)))

    def clear(self):
        self.writes = []

    erase = clear

    def border(self, *a):
        pass

    box = border

    def refresh(self):
        pass

    def getch(self, *a):
        t = self.s.next('key')
        return ord(t) if isinstance(t, str) and len(t) == 1 else ord(t[1][:1] or '\n')

    def getstr(self, *a):
        t = self.s.next('text')
        return (t if isinstance(t, str) else t[1]).encode()[:(a[2] if len(a) > 2 else None)]

    def text(self):
        return [w[2] for w in sorted(self.writes)]


def install(session):
    """the functions of the curses module for this session"""
    import types
    m = types.SimpleNamespace()
    m.error = error

    def initscr():
        session.active = True
        if session.window is None:
            session.window = Window(session)
        return session.window

    def endwin():
        session.active = False
        return 0
    m.initscr, m.endwin = initscr, endwin
    m.noecho = m.echo = m.cbreak = m.nocbreak = m.curs_set = m.start_color = m.flushinp = lambda *a: None
    return m
