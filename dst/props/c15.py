"""C15: a date encoded as "now" is the UTC time of the call."""
from .. import simthreads
simthreads.install()

import datetime as dt                                       # noqa: E402
import io                                                  # noqa: E402
import os                                                  # noqa: E402
import struct                                              # noqa: E402
import sys                                                 # noqa: E402
import time                                                # noqa: E402
from xml.etree import ElementTree as ET                    # noqa: E402

from .. import observe                                     # noqa: E402
from ..observe import lib                                  # noqa: E402
from ..simthreads import Scheduler, WILD                         # noqa: E402
from ..world import Violation                              # noqa: E402

RUNS = {'quick': 9000, 'thorough': 400000}
RULE = ('each run: 1-3 simulated threads encode dates, given and "now", through every encoding '
        'entry point, while the simulated clock ticks at every reading, jumps forwards and '
        'backwards (also between two readings) and the local time zone changes; every "now" must '
        'be a reading of the clock by that thread during that call, every date must decode to '
        'what was encoded; non-trivial = a "now" was encoded after a jump, zone change or switch; '
        'distinct by entry points, clock and schedule')
REAL = ['ebmlite.encoding', 'ebmlite.decoding', 'ebmlite.core', 'ebmlite.util (toXml, xml2ebml)',
        'datetime arithmetic', 'C library time zones']
STUB = ['clock', 'scheduler', 'threading primitives']
ASSUMPTIONS = ['dates are naive and in UTC, as documented',
               'the clock shows a time that a date can hold (1709-2292)']
PROBES = ('now', 'several nows', 'given date', 'jump', 'jump during call', 'zone change',
          'threads', 'explicit length', 'via xml', 'before epoch', 'last microsecond')

XML = '''<Schema><MasterElement name="EBML" id="0x1A45DFA3" mandatory="1">
<StringElement name="DocType" id="0x4282" default="dates"/></MasterElement>
<DateElement name="R" id="0x4461" multiple="1"/>
<MasterElement name="Top" id="0x81" multiple="1">
 <DateElement name="One" id="0x82"/>
 <DateElement name="Many" id="0x83" multiple="1"/>
 <UIntegerElement name="U" id="0x84"/>
 <MasterElement name="Sub" id="0x85"><DateElement name="Deep" id="0x86"/></MasterElement>
</MasterElement></Schema>'''
ZONES = ['UTC0', 'EST5EDT,M3.2.0,M11.1.0', 'IST-5:30', 'NPT-5:45', 'XXX-14', 'YYY+12',
         'LHST-10:30LHDT-11,M10.1.0,M4.1.0', 'NST3:30NDT,M3.2.0,M11.1.0', 'LMT-0:00:01']
Real = dt.datetime
EPOCH = Real(1970, 1, 1)
BASE = Real(2001, 1, 1)
MARKS = [Real(2001, 1, 1), Real(2000, 12, 31, 23, 59, 59, 999999), Real(1970, 1, 1),
         Real(2024, 2, 29, 23, 59, 59, 999999), Real(2023, 12, 31, 23, 59, 59, 999990),
         Real(2025, 3, 9, 6, 59, 59, 999998), Real(2025, 11, 2, 5, 59, 59), Real(2038, 1, 19, 3, 14, 7),
         Real(2106, 2, 7, 6, 28, 15), Real(2290, 1, 1), Real(1999, 12, 31, 23, 59, 59, 5),
         Real(2010, 6, 15, 12, 0, 0, 123456), Real(1905, 4, 1, 0, 0, 0, 1), Real(2012, 6, 30, 23, 59, 60 - 1)]
US = dt.timedelta(microseconds=1)


def setup():
    lib()


class Clock:
    """The wall clock, in microseconds since 1970 (UTC)."""

    def __init__(self, world):
        self.world = world
        self.us = (world.ch.pick(MARKS) - EPOCH) // US
        self.served = {}             # thread -> readings during its current call
        self.jumping = False

    def read(self):
        w, ch = self.world, self.world.ch
        k = ch.below(6)
        if k >= 4 and self.jumping:
            self.jump()
            w.probe('jump during call')
        elif k:
            self.us += [0, 1, 7, 1000, 400000, 999999][ch.below(6)]
        who = me()
        self.served.setdefault(who, []).append(self.us)
        w.log('clock', who, self.us)
        return self.us

    def jump(self):
        w, ch = self.world, self.world.ch
        k = ch.below(4)
        if k == 0:
            self.us = (ch.pick(MARKS) - EPOCH) // US
        elif k == 1:
            self.us -= ch.pick([1, 1000000, 3600 * 10 ** 6, 86400 * 10 ** 6, 10 ** 15])
        else:
            self.us += ch.pick([1, 1000000, 3600 * 10 ** 6, 86400 * 10 ** 6, 10 ** 15])
        self.us = max(-8 * 10 ** 15, min(10 ** 16, self.us))
        w.fired('clock jump')
        w.probe('jump')


def me():
    s = simthreads._current
    t = s.me() if s is not None else None
    return t.name if t is not None else 'main'


def install(clock):
    def s():
        return clock.read() / 1e6

    class Meta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, Real)

        def __subclasscheck__(cls, c):
            return issubclass(c, Real)

    class SimDateTime(Real, metaclass=Meta):
        @classmethod
        def utcnow(cls):
            return EPOCH + US * clock.read()

        @classmethod
        def now(cls, tz=None):
            u = clock.read()
            aware = EPOCH.replace(tzinfo=dt.timezone.utc) + US * u
            if tz is not None:
                return aware.astimezone(tz)
            return aware.astimezone().replace(tzinfo=None)

        @classmethod
        def today(cls):
            return cls.now()

    real_gm, real_local = time.gmtime, time.localtime
    dt.datetime = SimDateTime
    time.time = s
    time.time_ns = lambda: clock.read() * 1000
    time.gmtime = lambda t=None: real_gm(s() if t is None else t)
    time.localtime = lambda t=None: real_local(s() if t is None else t)
    for name, mod in list(sys.modules.items()):
        if name == 'ebmlite' or name.startswith('ebmlite.'):
            for a, v in list(vars(mod).items()):
                if v is Real:
                    setattr(mod, a, SimDateTime)
    return s


def given(ch):
    k = ch.below(4)
    v = ch.pick(MARKS)
    if k == 1:
        v += US * ch.below(10 ** 6)
    elif k == 2:
        v += US * ch.below(10 ** 15)
    elif k == 3:
        v -= US * ch.below(10 ** 6)
    return min(v, Real(2292, 1, 1))


def nanos(data):
    return struct.unpack('>q', data)[0]


class Check:
    def __init__(self, world, clock, L):
        self.w, self.clock, self.L = world, clock, L
        self.ch = world.ch
        self.schema = L['core'].Schema(io.StringIO(XML))
        self.calls = []

    def judge(self, what, want, payload, served):
        """One date: its encoded bytes against what was asked for."""
        if len(payload) != 8:
            raise Violation('wrong-date', '%s: %d bytes' % (what, len(payload)))
        ns = nanos(payload)
        if want is None:
            got = BASE + US * (ns // 1000)
            if ns % 1000 or ((got - EPOCH) // US) not in served:
                raise Violation('not-now', '%s: recorded %s.%03d, the clock showed %s' % (
                    what, got, ns % 1000, [str(EPOCH + US * t) for t in served]))
            if got.microsecond == 999999:
                self.w.probe('last microsecond')
            if ns < 0:
                self.w.probe('before epoch')
        elif ns != (want - BASE) // US * 1000:
            raise Violation('wrong-date', '%s: %s encoded as %d' % (what, want, ns))

    def one(self):
        """A date to encode: None for now."""
        if self.ch.chance(2, 3):
            self.w.probe('now')
            return None
        self.w.probe('given date')
        return given(self.ch)

    def call(self, what, f):
        who = me()
        self.clock.served[who] = []
        r = f()
        self.calls.append(what)
        served = self.clock.served.pop(who)
        self.w.mark(what, len(served))
        self.w.nontrivial += bool(served)
        return r, served

    def encode(self):
        ch, w, L, schema = self.ch, self.w, self.L, self.schema
        k = ch.pick(['encodeDate', 'payload', 'element', 'many', 'master', 'document', 'stream',
                     'xml'])
        E = L['encoding']
        if k == 'encodeDate':
            v = self.one()
            n = ch.pick([None, 8])
            if n:
                w.probe('explicit length')
            r, served = self.call(k, lambda: E.encodeDate(v, n) if n else E.encodeDate(v))
            self.judge(k, v, bytes(r), served)
            back = L['decoding'].readDate(io.BytesIO(bytes(r)))
            self.same(k, back, r)
            return
        if k == 'payload':
            v = self.one()
            r, served = self.call(k, lambda: schema['One'].encodePayload(v))
            self.judge(k, v, bytes(r), served)
            return
        if k == 'element':
            v = self.one()
            r, served = self.call(k, lambda: schema['One'].encode(v, lengthSize=ch.pick(
                [None, 1, 8])))
            self.judge(k, v, bytes(r)[-8:], served)
            return
        if k == 'many':
            vs = [self.one() for _ in range(ch.between(1, 4))]
            r, served = self.call(k, lambda: schema['Many'].encode(vs))
            r = bytes(r)
            w.probe('several nows')
            for i, v in enumerate(vs):
                self.judge('%s[%d]' % (k, i), v, r[i * 10 + 2:i * 10 + 10], served)
            return
        vs = [self.one() for _ in range(ch.between(1, 3))]
        one, deep, root = self.one(), self.one(), self.one()
        top = {'One': one, 'Many': vs, 'U': 5, 'Sub': {'Deep': deep}}
        if k == 'master':
            r, served = self.call(k, lambda: schema['Top'].encode(top))
            data = bytes(r)
            wants = [one] + vs + [deep]
        else:
            wants = [one] + vs + [deep, root]
            tree = {'Top': top, 'R': root}
            if k == 'stream':
                out = io.BytesIO()
                _, served = self.call(k, lambda: schema.encode(out, tree, headers=ch.chance(1, 2)))
                data = out.getvalue()
            else:
                r, served = self.call(k, lambda: schema.encodes(tree))
                data = bytes(r)
        doc = schema.loads(data)
        dates = [e for e in L['util'].flatiter(doc) if e.name in ('One', 'Many', 'Deep', 'R')]
        if len(dates) != len(wants):
            raise Violation('wrong-date', '%s: %d dates, expected %d' % (k, len(dates), len(wants)))
        w.probe('several nows')
        for e, v in zip(dates, wants):
            self.judge('%s %s' % (k, e.name), v, e.getRawValue(), served)
            self.same(k, e.value, e.getRawValue())
        if k == 'xml':
            w.probe('via xml')
            x = L['util'].toXml(doc)
            if ch.chance(1, 2):
                x = ET.fromstring(ET.tostring(x))
            self.zone()
            out = io.BytesIO()
            L['util'].xml2ebml(x, out, schema, headers=False)
            again = [e.getRawValue() for e in L['util'].flatiter(schema.loads(out.getvalue()))
                     if e.name in ('One', 'Many', 'Deep', 'R')]
            if again != [e.getRawValue() for e in dates]:
                raise Violation('wrong-date', 'through XML: %r became %r' % (
                    [str(e.value) for e in dates], [nanos(a) for a in again]))

    def same(self, what, value, payload):
        want = BASE + US * (nanos(bytes(payload)) // 1000)
        if value != want or value.tzinfo is not None:
            raise Violation('wrong-decoded', '%s: %r, expected %r' % (what, value, want))

    def zone(self):
        z = self.ch.pick(ZONES)
        os.environ['TZ'] = z
        time.tzset()
        self.w.fired('zone change')
        self.w.probe('zone change')
        self.w.log('zone', z)

    def step(self):
        k = self.ch.weighted([(6, 'encode'), (2, 'jump'), (1, 'zone')])
        if k == 'jump':
            self.clock.jump()
        elif k == 'zone':
            self.zone()
        else:
            self.encode()


def run(world):
    ch = world.ch
    L = lib()
    clock = Clock(world)
    read = install(clock)
    c = Check(world, clock, L)
    c.zone()
    clock.jumping = ch.chance(1, 3)
    n = ch.pick([1, 1, 2, 3])
    world.case = '%d threads from %s in %s' % (n, EPOCH + US * clock.us, os.environ['TZ'])
    if n == 1:
        for _ in ch.repeat(12, mean=6):
            c.step()
    else:
        world.probe('threads')
        s = Scheduler(world, mean_gap=ch.pick([5, 20, 60, WILD]), opcodes=ch.chance(1, 6))
        s.now_s = read

        def body():
            for _ in ch.repeat(5, mean=3):
                c.step()
        for i in range(n):
            s.start(s.spawn('T%d' % i, body))
        s.run()
    world.case += ': ' + ', '.join(c.calls[:14])
    observe.freeze(None)
