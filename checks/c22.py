"""C22: ConnectFourEnv plays connect four."""
import contextlib
import io

import numpy as onp

import coax.envs
from coax._base.errors import EpisodeDoneError, UnavailableActionError
from vmon import scenario
from vmon.gen import pick

R, C = 6, 7
LINES = [tuple((r + k * dr, c + k * dc) for k in range(4))
         for r in range(R) for c in range(C) for dr, dc in ((0, 1), (1, 0), (1, 1), (1, -1))
         if 0 <= r + 3 * dr < R and 0 <= c + 3 * dc < C]
assert len(LINES) == 69


class Game:
    """the rules, independently: board[r][c] in {0, 1, 2}, row 0 at the bottom"""
    def __init__(self):
        self.b = [[0] * C for _ in range(R)]
        self.turn, self.over, self.last = 1, False, None

    def copy(self):
        g = Game()
        g.b = [list(r) for r in self.b]
        g.turn, g.over, g.last = self.turn, self.over, self.last
        return g

    def height(self, c):
        return sum(self.b[r][c] != 0 for r in range(R))

    def moves(self):
        return [c for c in range(C) if self.height(c) < R]

    def wins(self, c):
        r, p = self.height(c), self.turn
        return [L for L in LINES if (r, c) in L and all(self.b[i][j] == p or (i, j) == (r, c) for i, j in L)]

    def play(self, c):
        w = self.wins(c)
        self.b[self.height(c)][c] = self.turn
        self.turn, self.last = 3 - self.turn, c
        self.over = bool(w) or not self.moves()
        return (1.0 if w else 0.0), w

    def obs(self):
        s = onp.zeros((R + 1, C, 2), 'uint8')
        s[0, self.moves(), :] = 1
        for r in range(R):
            for c in range(C):
                if self.b[r][c]:
                    s[R - r, c, 0 if self.b[r][c] == self.turn else 1] = 1
        return s


def compare(m, env, g, s):
    m.eq(s, g.obs(), 'observation')
    m.eq(s.dtype, onp.dtype('uint8'), 'observation-dtype')
    m.true(env.observation_space.contains(s), 'observation-in-space')
    m.eq(onp.asarray(env.state), g.obs(), 'state-property')
    m.eq([int(x) for x in env.available_actions], g.moves(), 'available-actions')
    m.eq([bool(x) for x in env.available_actions_mask], [c in g.moves() for c in range(C)], 'availability-mask')
    m.eq(bool(env.done), g.over, 'done-flag')
    m.ev('positions')


def choose(rng, g, style, line):
    mv = g.moves()
    if style == 'random':
        return int(pick(rng, mv))
    quiet = [c for c in mv if not g.wins(c)] or mv
    if style == 'draw':
        return int(pick(rng, quiet))
    # guided: player 1 aims at one line, nobody completes another one
    if g.turn == 1:
        own = [c for c in mv if (g.height(c), c) in line]
        good = [c for c in own if not g.wins(c) or line in g.wins(c)]
        if good:
            return int(pick(rng, good))
    safe = [c for c in quiet if (g.height(c), c) not in line] or quiet
    below = [c for c in safe if any(j == c and i > g.height(c) for i, j in line)]
    return int(pick(rng, below or safe))


@scenario(quick=150, thorough=12000, floor={'positions': 4000, 'wins': 150, 'draws': 5, 'refused': 400,
                                            'lines-1': 20})
def play(m):
    rng = m.rng
    env = coax.envs.ConnectFourEnv()
    for game in range(3):
        style = pick(rng, ['random', 'draw', 'guided', 'guided', 'guided'])
        line = LINES[(3 * m.index + game) % 69]
        g = Game()
        s = env.reset()
        compare(m, env, g, s)
        frozen = []
        while not g.over:
            full = [c for c in range(C) if c not in g.moves()]
            if full and rng.random() < 0.3:
                m.raises(UnavailableActionError, lambda: env.step(full[0]), 'full-column-refused')
                compare(m, env, g, env.state)
                m.ev('refused')
            if rng.random() < 0.05:
                bad = pick(rng, [-1, 7, 2.5, 'a', None])
                m.raises(ValueError, lambda: env.step(bad), 'invalid-action-refused', bad)
                compare(m, env, g, env.state)
                m.ev('refused')
            c = choose(rng, g, style, line)
            a = pick(rng, [int, onp.int64, onp.int32])(c)
            frozen.append((s, s.copy()))
            out = env.step(a)
            s, r, done, info = out[0], out[1], out[2], out[-1]
            want, won = g.play(c)
            m.log(f'{style} move {c} reward {r} done {done}')
            m.eq(float(r), want, 'reward-to-the-mover', str(g.b))
            m.eq(bool(done), g.over, 'done-exactly-on-win-or-full-board', str(g.b))
            compare(m, env, g, s)
            m.eq(info['state_id'], env.state_id, 'state-id-in-info')
            for L in won:
                m.nontrivial('line', L, 3 - g.turn)
                m.ev(f'lines-{3 - g.turn}')
        m.ev('wins' if want else 'draws')
        for x, y in frozen:
            m.eq(x, y, 'earlier-observations-do-not-change')
        for _ in range(2):
            m.raises(EpisodeDoneError, lambda: env.step(int(rng.integers(7))), 'step-after-the-end-refused')
            m.ev('refused')
        compare(m, env, g, env.state)
        m.nontrivial(style, bool(want), sum(x != 0 for row in g.b for x in row))
    m.sample(board=g.b, moves=sum(x != 0 for row in g.b for x in row))


@scenario(quick=60, thorough=4000, floor={'restored': 100, 'rendered': 100})
def save_and_restore(m):
    """a state id restores the position into any env; both then play on identically"""
    rng = m.rng
    env, other = coax.envs.ConnectFourEnv(), coax.envs.ConnectFourEnv()
    g = Game()
    env.reset()
    ids = [(env.state_id, g.copy())]
    stop = int(rng.integers(0, 43))
    style = pick(rng, ['random', 'draw'])
    while not g.over and len(ids) <= stop:
        c = choose(rng, g, style, None)
        env.step(c)
        g.play(c)
        ids.append((env.state_id, g.copy()))
    m.true(len({i for i, _ in ids}) == len(ids), 'distinct-positions-have-distinct-ids')
    # restore into an env that is somewhere else
    other.reset()
    for _ in range(int(rng.integers(0, 6))):
        other.step(int(pick(rng, [int(x) for x in other.available_actions])))
    for i in rng.permutation(len(ids))[:3]:
        sid, was = ids[int(i)]
        h = was.copy()
        other.set_state(sid)
        compare(m, other, h, other.state)
        m.eq(other.state_id, sid, 'id-of-the-restored-position')
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            other.render()
        tokens = {1: '\u25cf', 2: '\u25cb'}
        text = buf.getvalue()
        for p in (1, 2):
            m.eq(text.count(tokens[p]), sum(x == p for row in h.b for x in row), 'rendered-tokens', text)
        m.eq(text.count('\u25bd') + text.count('\u25bc'), int(h.last is not None), 'rendered-last-move', text)
        if h.last is not None:
            m.true(('\u25bd' if 3 - h.turn == 1 else '\u25bc') in text, 'rendered-last-mover', text)
        m.ev('rendered')
        while not h.over:
            c = choose(rng, h, 'random', None)
            out = other.step(onp.int64(c))
            want, _ = h.play(c)
            m.eq((float(out[1]), bool(out[2])), (want, h.over), 'restored-game-plays-on')
            compare(m, other, h, out[0])
        m.ev('restored')
        m.nontrivial(len(ids), int(i))
    compare(m, env, g, env.state)
    m.sample(id=ids[-1][0])
