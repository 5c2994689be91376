"""Stand-ins for OpenGL, the window system, the sprite sheets and the video encoder, so that the real render command can run here.

Pictures are kept as the list of what was drawn (texture, part of the texture, corners in picture pixels, colour)."""
import builtins
import contextlib
import io
import json
import math
import os
import sys
import types

import numpy as np

SHEETS = {
    'hr-transport-belt.png': (2048, 2560), 'hr-underground-belt-structure.png': (768, 768),
    'hr-splitter-east.png': (720, 336), 'hr-splitter-east-top_patch.png': (720, 416),
    'hr-splitter-west.png': (720, 344), 'hr-splitter-west-top_patch.png': (720, 384),
    'hr-splitter-south.png': (1312, 256), 'hr-splitter-north.png': (1280, 280),
    'hr-inserter-platform.png': (420, 79), 'hr-long-handed-inserter-platform.png': (420, 79),
    'hr-inserter-hand-base.png': (32, 136), 'hr-long-handed-inserter-hand-base.png': (32, 136),
    'hr-inserter-hand-open.png': (72, 164), 'hr-long-handed-inserter-hand-open.png': (72, 164),
    'hr-inserter-hand-closed.png': (72, 164), 'hr-long-handed-inserter-hand-closed.png': (72, 164),
    'hr-assembling-machine-1.png': (1712, 904),
}
NAMES = sorted(SHEETS)


class Stop(Exception):
    pass


class Texture:
    def __init__(self):
        self.size, self.name, self.text, self.upright = (0, 0), None, None, True
        self.picture = None


class Buffer:
    def __init__(self):
        self.size, self.picture = (0, 0), ()


class Sim:
    def __init__(self):
        import OpenGL.GL as real
        self.G = real
        self.reset()

    def reset(self):
        self.ids = 0
        self.textures, self.renderbuffers, self.framebuffers = {}, {}, {}
        self.window = Buffer()
        self.bound_tex = self.bound_rb = 0
        self.draw_fb = self.read_fb = 0
        self.mode = int(self.G.GL_MODELVIEW)
        self.stacks = {int(self.G.GL_MODELVIEW): [np.eye(4)], int(self.G.GL_PROJECTION): [np.eye(4)], int(self.G.GL_TEXTURE): [np.eye(4)]}
        self.texturing = False
        self.colour = (1.0, 1.0, 1.0)
        self.tc = (0.0, 0.0)
        self.begun = None
        self.verts = []
        self.view = (0, 0, 0, 0)
        self.shots = {}
        self.errors = []

    # -- objects ------------------------------------------------------------
    def gen(self, table, cls, n):
        out = []
        for _ in range(n):
            self.ids += 1
            table[self.ids] = cls()
            out.append(self.ids)
        return out[0] if n == 1 else np.array(out)

    def target(self, fb):
        if fb == 0:
            return self.window
        return self.framebuffers[fb].get('colour')

    def picture(self, fb):
        t = self.target(fb)
        return t.picture if t is not None else None

    # -- drawing --------------------------------------------------------------
    def top(self):
        return self.stacks[self.mode][-1]

    def mul(self, m):
        self.stacks[self.mode][-1] = self.top() @ m

    def vertex(self, x, y):
        p = self.stacks[int(self.G.GL_PROJECTION)][-1] @ self.stacks[int(self.G.GL_MODELVIEW)][-1] @ np.array([x, y, 0.0, 1.0])
        vx, vy, vw, vh = self.view
        # picture pixels, first row on top
        px, py = vx + (p[0] + 1) / 2 * vw, vy + (p[1] + 1) / 2 * vh
        t = self.target(self.draw_fb)
        self.verts.append((px, t.size[1] - py, *self.tc))

    def end(self):
        t = self.target(self.draw_fb)
        tex = self.textures.get(self.bound_tex) if self.texturing else None
        size = {int(self.G.GL_QUADS): 4, int(self.G.GL_LINES): 2, int(self.G.GL_TRIANGLES): 3}.get(self.begun)
        step = size or max(1, len(self.verts))
        if self.begun in (int(self.G.GL_LINE_STRIP), int(self.G.GL_LINE_LOOP)):
            ends = self.verts[1:] + (self.verts[:1] if self.begun == int(self.G.GL_LINE_LOOP) else [])
            self.verts = [v for pair in zip(self.verts, ends) for v in pair]
            self.begun, step = int(self.G.GL_LINES), 2
        for k in range(0, len(self.verts), step):
            t.picture = t.picture + (Draw(self.begun, tex, self.colour, self.verts[k:k + step]),)
        self.begun, self.verts = None, []


class Draw:
    def __init__(self, mode, tex, colour, verts):
        self.mode, self.colour = mode, tuple(round(float(c), 6) for c in colour)
        self.name, self.text, self.upright = (tex.name, tex.text, tex.upright) if tex else (None, None, True)
        self.size = tex.size if tex else None
        self.verts = [tuple(float(v) for v in q) for q in verts]

    def box(self):
        xs, ys = [v[0] for v in self.verts], [v[1] for v in self.verts]
        return min(xs), min(ys), max(xs), max(ys)

    def part(self):
        """the part of the sheet that is shown, in sheet pixels from the top left, and whether it is shown upright"""
        us, vs = [v[2] for v in self.verts], [v[3] for v in self.verts]
        w, h = self.size
        pts = []
        for x, y, u, v in self.verts:
            pts.append((x, y, u * w, (1 - v) * h if self.upright else v * h))
        x0, x1 = min(us) * w, max(us) * w
        ys = [p[3] for p in pts]
        b = self.box()
        ok = all((abs(p[0] - b[0]) < 1e-6) == (abs(p[2] - x0) < 1e-6) and (abs(p[1] - b[1]) < 1e-6) == (abs(p[3] - min(ys)) < 1e-6) for p in pts)
        return x0, min(ys), x1, max(ys), ok


def build(sim):
    G = sim.G
    f = {}

    def api(fn):
        name = fn.__name__
        f[name] = fn
        return fn

    def seq(a):
        return a[0] if len(a) == 1 and hasattr(a[0], '__len__') else a

    def same(names, fn):
        for n in names.split():
            f[n] = fn

    f['glPushMatrix'] = lambda: sim.stacks[sim.mode].append(sim.top().copy())
    f['glPopMatrix'] = lambda: sim.stacks[sim.mode].pop()
    f['glLoadIdentity'] = lambda: sim.stacks[sim.mode].__setitem__(-1, np.eye(4))

    @api
    def glMatrixMode(m):
        sim.mode = int(m)

    def translate(x, y, z=0):
        m = np.eye(4)
        m[:3, 3] = x, y, z
        sim.mul(m)

    def scale(x, y, z=1):
        sim.mul(np.diag([x, y, z, 1.0]))

    def rotate(a, x, y, z):
        assert x == 0 and y == 0
        c, s = math.cos(math.radians(a)), math.sin(math.radians(a)) * (1 if z > 0 else -1)
        m = np.eye(4)
        m[:2, :2] = [[c, -s], [s, c]]
        sim.mul(m)

    def ortho(l, r, b, t, *_):
        m = np.eye(4)
        m[0, 0], m[1, 1] = 2 / (r - l), 2 / (t - b)
        m[0, 3], m[1, 3] = -(r + l) / (r - l), -(t + b) / (t - b)
        sim.mul(m)

    def colour(*a):
        sim.colour = tuple(float(v) for v in seq(a)[:3])

    def colour_b(*a):
        sim.colour = tuple(float(v) / 255 for v in seq(a)[:3])

    def coord(*a):
        a = seq(a)
        sim.tc = float(a[0]), float(a[1])

    def vertex(*a):
        a = seq(a)
        sim.vertex(float(a[0]), float(a[1]))
    same('glTranslatef glTranslated glTranslate', translate)
    same('glScalef glScaled glScale', scale)
    same('glRotatef glRotated glRotate', rotate)
    same('glOrtho', ortho)
    same('glColor3f glColor3fv glColor3d glColor3dv glColor4f glColor4fv glColor', colour)
    same('glColor3ub glColor3ubv glColor4ub', colour_b)
    same('glTexCoord2f glTexCoord2fv glTexCoord2d glTexCoord glTexCoord2i', coord)
    same('glVertex2f glVertex2fv glVertex2d glVertex2i glVertex3f glVertex3fv glVertex', vertex)

    @api
    def glBegin(mode):
        sim.begun, sim.verts = int(mode), []

    f['glEnd'] = sim.end

    @api
    def glEnable(cap):
        if int(cap) == int(G.GL_TEXTURE_2D):
            sim.texturing = True

    @api
    def glDisable(cap):
        if int(cap) == int(G.GL_TEXTURE_2D):
            sim.texturing = False

    f['glGenTextures'] = lambda n: sim.gen(sim.textures, Texture, n)
    f['glGenFramebuffers'] = lambda n: sim.gen(sim.framebuffers, dict, n)
    f['glGenRenderbuffers'] = lambda n: sim.gen(sim.renderbuffers, Buffer, n)

    @api
    def glBindTexture(_, t):
        sim.bound_tex = int(t)

    @api
    def glBindRenderbuffer(_, r):
        sim.bound_rb = int(r)

    @api
    def glBindFramebuffer(target, fb):
        fb = int(fb)
        if fb and fb not in sim.framebuffers:
            raise Stop('a deleted framebuffer is used')
        if int(target) in (int(G.GL_FRAMEBUFFER), int(G.GL_DRAW_FRAMEBUFFER)):
            sim.draw_fb = fb
        if int(target) in (int(G.GL_FRAMEBUFFER), int(G.GL_READ_FRAMEBUFFER)):
            sim.read_fb = fb

    def storage(w, h):
        b = sim.renderbuffers[sim.bound_rb]
        b.size, b.picture = (int(w), int(h)), ()
    f['glRenderbufferStorage'] = lambda _t, _f, w, h: storage(w, h)
    f['glRenderbufferStorageMultisample'] = lambda _t, _s, _f, w, h: storage(w, h)

    @api
    def glFramebufferRenderbuffer(target, _a, _rt, rb):
        fb = sim.read_fb if int(target) == int(G.GL_READ_FRAMEBUFFER) else sim.draw_fb
        sim.framebuffers[fb]['colour'] = sim.renderbuffers[int(rb)] if int(rb) else None

    @api
    def glFramebufferTexture2D(target, _a, _tt, tex, _l):
        fb = sim.read_fb if int(target) == int(G.GL_READ_FRAMEBUFFER) else sim.draw_fb
        sim.framebuffers[fb]['colour'] = sim.textures[int(tex)] if int(tex) else None

    def drop(table, bound):
        def fn(*a):
            a = a[-1]
            for k in (list(a) if hasattr(a, '__len__') else [a]):
                o = table.pop(int(k), None)
                for fb in (sim.draw_fb, sim.read_fb):
                    if fb and fb in sim.framebuffers and sim.framebuffers[fb].get('colour') is o and o is not None:
                        sim.framebuffers[fb]['colour'] = None
        return fn
    f['glDeleteRenderbuffers'] = drop(sim.renderbuffers, None)
    f['glDeleteTextures'] = drop(sim.textures, None)

    @api
    def glDeleteFramebuffers(*a):
        a = a[-1]
        for k in (list(a) if hasattr(a, '__len__') else [a]):
            sim.framebuffers.pop(int(k), None)
            if sim.draw_fb == int(k):
                sim.draw_fb = 0
            if sim.read_fb == int(k):
                sim.read_fb = 0

    @api
    def glTexImage2D(_t, _l, _i, w, h, _b, fmt, _ty, data):
        t = sim.textures[sim.bound_tex]
        t.size, t.name, t.text, t.picture = (int(w), int(h)), None, None, ()
        if data is None:
            return
        raw = np.frombuffer(data, np.uint8) if isinstance(data, (bytes, bytearray)) else np.asarray(data, np.uint8).reshape(-1)
        raw = raw.reshape(h, w, -1)
        if raw[0, 0, 0] == 200 and raw[0, 0, 1] in (1, 2):
            t.name, t.upright = NAMES[raw[0, 0, 2]], raw[0, 0, 1] == 2
        else:                                   # text: the characters are in the alpha channel
            t.text = ''.join(chr(raw[0, k, 3]) for k in range(0, w, 8) if raw[0, k, 3] > 1)
            t.upright = False

    @api
    def glGetTexLevelParameteriv(_t, _l, what, *_):
        t = sim.textures[sim.bound_tex]
        return t.size[0] if int(what) == int(G.GL_TEXTURE_WIDTH) else t.size[1]

    @api
    def glGetIntegerv(what, *_):
        if int(what) == int(G.GL_VIEWPORT):
            return np.array(sim.view)
        return 0

    @api
    def glViewport(*a):
        sim.view = tuple(int(v) for v in a)

    @api
    def glClear(_):
        t = sim.target(sim.draw_fb)
        t.picture = ()

    @api
    def glBlitFramebuffer(a, b, c, d, e, f_, g, h, _m, _q):
        src, dst = sim.target(sim.read_fb), sim.target(sim.draw_fb)
        if src is None or dst is None:
            raise Stop('blit without an attached buffer')
        if (a, b, c, d) != (e, f_, g, h) or (a, b, c, d) != (0, 0, *src.size) or src.size != dst.size:
            raise Stop('blit %s to %s between buffers of %s and %s' % ((a, b, c, d), (e, f_, g, h), src.size, dst.size))
        dst.picture = src.picture

    @api
    def glGetTexImage(_t, _l, fmt, _ty, *_):
        t = sim.textures[sim.bound_tex]
        return snapshot(t)

    @api
    def glReadPixels(x, y, w, h, *_):
        return snapshot(sim.target(sim.read_fb))

    def snapshot(t):
        k = len(sim.shots) + 1
        sim.shots[k] = t.picture, t.size
        w, h = t.size
        a = np.zeros((h, w, 3), np.uint8)
        a[:, :, 0] = k & 255
        a[:, :, 1] = k >> 8
        a[:, :, 2] = np.arange(h)[:, None] & 255    # bottom row first
        return a.tobytes()

    mods = {}
    for modname in ('OpenGL.GL', 'OpenGL.GLU'):
        real = __import__(modname, fromlist=['x'])
        m = types.ModuleType(modname)
        for n in dir(real):
            if n.startswith('_'):
                continue
            v = getattr(real, n)
            if n in f:
                v = f[n]
            elif n.startswith(('gl', 'glu')) and callable(v):
                v = (lambda *a, **k: 0)
            setattr(m, n, v)
        for n, v in f.items():
            setattr(m, n, v)
        mods[modname] = m
    mods['OpenGL.GLU'].gluOrtho2D = ortho
    mods['OpenGL.GL'].gluOrtho2D = ortho
    return mods


# -- window, fonts, images, video --------------------------------------------------------------------

class Surface:
    def __init__(self, text):
        self.text = text

    def get_size(self):
        return 8 * max(1, len(self.text)), 16

    def get_width(self):
        return self.get_size()[0]

    def get_height(self):
        return self.get_size()[1]


class Font:
    def __init__(self, *_a, **_k):
        pass

    def size(self, text):
        return 8 * len(text), 16

    def render(self, text, *_a, **_k):
        return Surface(text)


def array3d(surface):
    w, h = surface.get_size()
    a = np.zeros((w, h, 3), np.uint8)
    for k, c in enumerate(surface.text):
        a[8 * k:8 * k + 8] = ord(c) & 255
    return a


def image_open(filename, *_a, **_k):
    from PIL import Image
    name = os.path.basename(str(filename))
    if name not in SHEETS:
        raise FileNotFoundError(filename)
    if name not in _images:
        w, h = SHEETS[name]
        img = Image.new('RGBA', (w, h))
        k = NAMES.index(name)
        img.putpixel((0, 0), (200, 1, k, 255))
        img.putpixel((0, h - 1), (200, 2, k, 255))
        _images[name] = img
    return _images[name].copy()


_images = {}


class Video:
    def __init__(self, sim, log):
        self.sim, self.log = sim, log

    def module(self):
        sim, log = self.sim, self.log

        class Pipe(io.BytesIO):
            def close(self):
                pass

        class Process:
            def __init__(self, given, out):
                self.given, self.out, self.stdin = given, out, Pipe()
                log.append(self)

            def wait(self):
                return 0

            def communicate(self, input=None):
                if input:
                    self.stdin.write(input)
                return None, None

        class Stream:
            def __init__(self, given, out=None):
                self.given, self.out = given, out

            def output(self, filename, **kw):
                return Stream(self.given, (filename, kw))

            def overwrite_output(self):
                return self

            def run_async(self, **_k):
                return Process(self.given, self.out)
        m = types.ModuleType('ffmpeg')
        m.input = lambda *a, **k: Stream((a, k))
        return m


class Event:
    def __init__(self, type, key=None):
        self.type, self.key = type, key


_state = {}


def load():
    """the render module over the stand-ins (once per process)"""
    if not _state:
        import pygame
        import pygame.surfarray
        from PIL import Image
        sim = Sim()
        videos = []
        sys.modules.update(build(sim))
        sys.modules['ffmpeg'] = Video(sim, videos).module()
        Image.open = image_open
        for k in ('factorio_sat.render', 'factorio_sat.tilemaps'):
            sys.modules.pop(k, None)
        d = pygame.display
        d.init = lambda *a: None

        def set_mode(size, *_a, **_k):
            sim.window.size, sim.window.picture = tuple(int(v) for v in size), ()
            if sim.view[2:] == (0, 0):
                sim.view = (0, 0, *sim.window.size)
        d.set_mode = set_mode
        d.set_caption = lambda *a: None
        pygame.font.init = lambda *a: None
        pygame.font.Font = pygame.font.SysFont = Font
        pygame.surfarray.array3d = array3d
        pygame.quit = lambda: None

        class Clock:
            def tick(self, *_):
                return 16

            def get_fps(self):
                return 60.0
        pygame.time.Clock = Clock
        import factorio_sat.render as render
        _state.update(sim=sim, videos=videos, render=render, pygame=pygame)
    return _state


def run(argv, lines, script=None, limit=20000):
    """Runs render with the given command line, standard input and events per displayed frame.
    Returns dict(frames=[(picture, size) per displayed frame], videos=[(filename, [(picture, size, upright)], options)], out=printed lines)"""
    st = load()
    sim, pygame, render = st['sim'], st['pygame'], st['render']
    sim.reset()
    del st['videos'][:]
    frames = []
    todo = list(script or [])
    count = [0]

    def get(*_):
        count[0] += 1
        if count[0] > limit:
            raise Stop('does not end')
        if script is None:
            return []
        if not todo:
            return [Event(pygame.QUIT)]
        return [Event(pygame.KEYDOWN, getattr(pygame, 'K_' + k)) for k in todo.pop(0)]

    def flip():
        frames.append((sim.window.picture, sim.window.size))
    pygame.event.get = get
    pygame.display.flip = flip
    out = io.StringIO()
    old = sys.argv, sys.stdin
    sys.argv, sys.stdin = ['render'] + [str(a) for a in argv], io.StringIO(''.join(l + '\n' for l in lines))
    try:
        with contextlib.redirect_stdout(out):
            render.main()
    finally:
        sys.argv, sys.stdin = old
    videos = []
    for p in st['videos']:
        (_, opts), (filename, outopts) = p.given, p.out
        w, h = map(int, opts.get('s', '0x0').split('x'))
        raw = np.frombuffer(p.stdin.getvalue(), np.uint8)
        shots = []
        if w * h and len(raw) % (w * h * 3) == 0:
            for fr in raw.reshape(-1, h, w, 3):
                k = int(fr[0, 0, 0]) + 256 * int(fr[0, 0, 1])
                picture, size = sim.shots[k]
                top = h < 2 or int(fr[0, 0, 2]) == (h - 1) & 255
                shots.append((picture, size, top))
        videos.append((filename, shots, opts, outopts))
    return dict(frames=frames, videos=videos, out=out.getvalue().splitlines())
