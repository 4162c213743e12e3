"""The configuration loader under chosen outcomes of every key: which value ends up in which setting, and who owns what."""
from trace import *
import frontend

GET = {'g_key_file_get_integer': ('integer', 3), 'g_key_file_get_boolean': ('boolean', 3), 'g_key_file_get_string': ('string', 3), 'g_key_file_get_string_list': ('string_list', 4),
       'g_key_file_get_double': ('double', 3), 'g_key_file_get_int64': ('integer', 3), 'g_key_file_get_uint64': ('integer', 3), 'g_key_file_get_value': ('string', 3)}
ERRARG = {n: p for n, (_, p) in GET.items()}
KEY_NOT_FOUND, INVALID_VALUE, UNKNOWN_ENCODING = 3, 5, 0
ALLOC = {'g_key_file_new', 'g_strdup', 'g_strndup', 'g_strdupv', 'g_key_file_get_string', 'g_key_file_get_string_list', 'g_key_file_get_value', 'g_malloc', 'g_malloc0', 'g_strdup_printf', 'g_strconcat', 'g_strsplit', 'g_key_file_ref'}
FREE = {'g_free': 0, 'free': 0, 'g_strfreev': 0, 'g_key_file_free': 0, 'g_key_file_unref': 0, 'g_error_free': 0}
UNITS = {'bytes': 1, 'kilobytes': 1024, 'seconds': 1, 'minutes': 60, 'hours': 3600, 'signed_integer_percent': 1, 'processes': 1, None: 1}


def documented():
    """{(group, key): (kind, default text, unit)} from the shipped configuration file"""
    path = os.path.join(os.path.dirname(frontend.SRC), 'bin', 'preload.conf')
    if not os.path.exists(path):
        path = '/repo/bin/preload.conf'
    out, grp, unit, dflt = {}, None, None, None
    for l in open(path):
        l = l.rstrip('\n')
        m = re.match(r'\[(\w+)\]', l)
        if m:
            grp = m.group(1)
        m = re.match(r'#\s*unit:\s*(\S+)', l)
        if m:
            unit = m.group(1)
        m = re.match(r'#\s*default:\s*(.*\S)', l)
        if m:
            dflt = m.group(1)
        m = re.match(r'(\w+)\s*=', l)
        if m:
            if dflt is None:
                raise Broken('no documented default for ' + m.group(1))
            kind = 'boolean' if dflt in ('true', 'false') else 'string_list' if dflt.startswith('(empty list') else 'string' if dflt.startswith('"') else 'integer'
            if unit not in UNITS:
                raise Broken('documented unit %s of %s is not known' % (unit, m.group(1)))
            out[(grp, m.group(1))] = (kind, dflt, unit)
            unit = dflt = None
    if len(out) < 10:
        raise Broken('only %d documented settings found in %s' % (len(out), path))
    return out


def conffield(loc):
    """(group, key) of a location inside the configuration in effect"""
    if loc.k == 'fld' and root(loc).k == 'g' and root(loc).a[0] == 'conf':
        m = re.match(r'_conf_(\w+)\.(\w+)$', loc.a[1])
        if m:
            return m.groups()
    return None


def livekeys(prog):
    return [('F', prog.field(s, n)) for s in prog.structs if s.startswith('struct._conf_') for n in range(len(prog.structs[s]['f']))]


class Load(Client):
    """auto: (owned terms, freed terms with where, calls of get, logs)"""

    def __init__(self, outcome, file='ok', done=None, ended=None):
        self.outcome, self.file, self.judge, self.ended = outcome, file, done, ended
        self.trouble = []

    def init(self):
        return (), (), (), ()

    def keep_atoms(self, S):
        o, f, g, l = S.auto
        a = set()
        for t in o + f:
            a |= t.atoms
        for x in g:
            a |= x[3].atoms
        return a | {a for f in S.facts for a in f.atoms}

    def owns(self, S, t):
        S.auto = (S.auto[0] + (uncast(t),),) + S.auto[1:]

    def frees(self, S, i, t):
        t = uncast(t)
        if t is ZERO or S.isnull(t):
            return
        if t in S.auto[1]:
            self.bad(S, i, 'double free', '%s is released twice' % show(t))
        S.auto = tuple(x for x in S.auto[0] if x is not t), S.auto[1] + (t,), S.auto[2], S.auto[3]

    def call(self, S, i, name, args, ret, label):
        if name == 'g_key_file_load_from_file':
            if label != self.file:
                return []
            if label == 'err':
                self.error(S, i, args[3], KEY_NOT_FOUND + 100)
        elif name in GET:
            if args[1].k != 's' or args[2].k != 's':
                raise Broken('a key read from the configuration file is not constant at ' + i.where())
            want = self.outcome(args[1].a[0], args[2].a[0], GET[name][0])
            if (label == 'ok') != (want == 'ok'):
                return []
            S.auto = S.auto[0], S.auto[1], S.auto[2] + ((args[1].a[0], args[2].a[0], GET[name][0], ret, want),), S.auto[3]
            if label == 'err':
                self.error(S, i, args[ERRARG[name]], {'missing': KEY_NOT_FOUND, 'invalid': INVALID_VALUE, 'encoding': UNKNOWN_ENCODING}[want])
        elif name.startswith('g_key_file_') and name not in ('g_key_file_new', 'g_key_file_free', 'g_key_file_unref', 'g_key_file_error_quark'):
            raise Broken('%s is not modelled' % name)
        elif name == 'g_log':
            S.auto = S.auto[:3] + (S.auto[3] + (args[1],),)
        elif name == 'g_clear_error':
            pass
        elif name == 'g_error_matches':
            e = args[0]
            code = S.mem.get(mk('fld', e, '_GError.code'))
            if code is not None and args[2].k == 'i' and code.k == 'i':
                v = int(code is args[2])
                if not S.refine(ret, v, v):
                    return []
        if name in ALLOC and ret.k != 'i' and (label in (None, 'ok')):
            if not (name in ('g_strdup', 'g_strdupv') and S.isnull(args[0])):
                S.refine(ret, ne=(0,))
                self.owns(S, ret)
        if name in FREE:
            self.frees(S, i, args[FREE[name]])

    def pre_call(self, S, i, name, args, label):
        if name == 'g_clear_error':
            v = S.mem.get(self.sim.addr_leaf(args[0]))
            if v is not None and not S.isnull(v):
                self.frees(S, i, v)

    def error(self, S, i, where, code):
        if where is ZERO:
            return
        loc = self.sim.addr_leaf(where)
        e = S.mem.get(loc)
        if e is None:
            raise Broken('error object not known')
        f = mk('fld', e, '_GError.code')
        S.mem[f] = I(code)
        S.mem[mk('fld', e, '_GError.domain')] = mk('c', 0, 'g_key_file_error_quark')
        self.owns(S, e)

    def ret(self, S, i, v):
        self.judge(self, S, i)

    def dead(self, S, i):
        if self.ended:
            self.ended(self, S, i)


def start(fail, conffile=None):
    st = State()
    st.env[('a', 1)] = I(fail)
    if conffile == 'none':
        st.env[('a', 0)] = ZERO
    elif conffile == 'file':
        st.env[('a', 0)] = mk('s', '/etc/preload.conf')
    return st


def final(S):
    """{(group, key): value} of the settings written on this path"""
    out = {}
    for k, v in S.mem.items():
        g = conffield(k)
        if g:
            out[g] = v
    return out


def unchanged(v, g):
    l = unload(v)
    return l is not None and conffield(l) == g
